"""The universe of types that cases are about, and the reference semantics of databind for it.

A *spec* is plain data (lists, dicts, strings, numbers) that describes a type. It is rendered as the source code of a
Python module, which is then executed, so the classes that a case is about are declared like a user declares them. A
*raw* value is plain data that describes a value of a spec. The reference semantics (what dumping must produce, what
loading must accept and produce) are written against the spec and never look at databind.

    ["int"] ["float"] ["bool"] ["str"] ["bytes"] ["decimal"] ["date"] ["time"] ["datetime"] ["duration"] ["uuid"]
    ["path"] ["purepath"] ["winpath"] ["any"] ["object"] ["literal", [v...]] ["newtype", name, inner]
    ["enum", name, [[member, [alias...]]...]]  ["intenum", name, [[member, int]...]]
    ["list"|"set"|"frozenset"|"deque"|"seq"|"coll"|"mutseq"|"vtuple"|"aset"|"mutset", inner]  ["tuple", [item...]]
    ["dict"|"mapping"|"mutmapping"|"odict"|"ddict", key, value]
    ["ccoll", inner, name, base, how]  ["cmap", key, value, name, base, how]: own collection and mapping classes (`CCOLL`, `CMAP`)
    ["sub", name, base]: own subclass of the type of a scalar
    ["opt", inner]  ["union", [member...]]  ["ann", inner]
    ["dc", name, [field...], opts]  ["td", name, [field...], total]  ["nt", name, [field...]]
    ["gdc", name, [field...], [arg...]]  ["tv", index]  ["ref", name]
    ["dunion", name, style, discriminator key, nesting key or None, [[id, member]...], "class"|"annotated"]
    ["conv", name]
    ["das", how, name, inner, original or None, extra or None]: a type (called *name*, or *original*) that is marked to be
        deserialized as *inner*; how is "abstract", "dataclass" or "base", with or without "local:" in front of it

    field: {"n": name, "t": spec, "al": [alias...]?, "d": [raw default]?, "req": bool?, "flat": true?, "rem": true?}
    opts: {"extra": bool?, "rec": true?, "frozen": bool?, "slots": bool?}
"""

import base64
import collections
import collections.abc
import datetime
import decimal
import enum
import itertools
import json
import math
import pathlib
import re
import sys
import types
import typing
import uuid
from typing import Any, Dict, List, Optional, Tuple

from pbt import codec

HEADER = """\
{future}import abc, collections, collections.abc, dataclasses, datetime, decimal, enum, pathlib, typing as t, uuid
import typing_extensions as te
from nr.date import duration
from databind.core import (
    Alias, Converter, ConversionError, DateFormat, DeserializeAs, ExtraKeys, Flattened, Precision, Priority, Remainder,
    Required, SerializeDefaults, Setting, Settings, Strict, Union, BooleanSetting, ClassDecoratorSetting,
)
from databind.json import JsonConverter
T0 = t.TypeVar("T0")
T1 = t.TypeVar("T1")
class Note(Setting):
    pass  # Of no relevance to any converter

"""

SCALARS = {
    "int": "int",
    "float": "float",
    "bool": "bool",
    "str": "str",
    "bytes": "bytes",
    "decimal": "decimal.Decimal",
    "date": "datetime.date",
    "time": "datetime.time",
    "datetime": "datetime.datetime",
    "duration": "duration",
    "uuid": "uuid.UUID",
    "path": "pathlib.Path",
    "purepath": "pathlib.PurePath",
    "winpath": "pathlib.PureWindowsPath",
    "any": "t.Any",
    "object": "object",
}

# kind: (classic spelling, modern spelling, runtime type)
COLLECTIONS = {
    "list": ("t.List", "list", list),
    "set": ("t.Set", "set", set),
    "frozenset": ("t.FrozenSet", "frozenset", frozenset),
    "deque": ("t.Deque", "collections.deque", collections.deque),
    "seq": ("t.Sequence", "collections.abc.Sequence", collections.abc.Sequence),
    "coll": ("t.Collection", "collections.abc.Collection", collections.abc.Collection),
    "mutseq": ("t.MutableSequence", "collections.abc.MutableSequence", collections.abc.MutableSequence),
    "vtuple": ("t.Tuple", "tuple", tuple),
    "aset": ("t.AbstractSet", "collections.abc.Set", collections.abc.Set),
    "mutset": ("t.MutableSet", "collections.abc.MutableSet", collections.abc.MutableSet),
    "ccoll": (None, None, None),
}

MAPPINGS = {
    "dict": ("t.Dict", "dict", dict),
    "mapping": ("t.Mapping", "collections.abc.Mapping", collections.abc.Mapping),
    "mutmapping": ("t.MutableMapping", "collections.abc.MutableMapping", collections.abc.MutableMapping),
    "odict": ("t.OrderedDict", "collections.OrderedDict", collections.OrderedDict),
    "ddict": ("t.DefaultDict", "collections.defaultdict", collections.defaultdict),
    "cmap": (None, None, None),
}

# How the classes of own collections are declared: what they derive from (B is the base, I the item) and how they are used.
CCOLL = {
    "generic": ("{B}[T0]", "{X}[{I}]"),
    "plain": ("{b}[T0]", "{X}[{I}]"),  # The builtin class is no generic class for the typing module
    "twice": ("{B}[T0], t.Generic[T0]", "{X}[{I}]"),
    "derived": ("{X}_[T0]", "{X}[{I}]"),
    "fixed": ("{B}[{I}]", "{X}"),
    "grandchild": ("{X}_[{I}]", "{X}"),
    "nested": ("{B}[t.List[T0]]", "{X}[{J}]"),  # Only for lists as items
}
CMAP = {
    "generic": ("{B}[T0, T1]", "{X}[{K}, {V}]"),
    "plain": ("{b}[T0, T1]", "{X}[{K}, {V}]"),
    "swapped": ("{B}[T0, T1], t.Generic[T1, T0]", "{X}[{V}, {K}]"),
    "reversed": ("{B}[T1, T0]", "{X}[{K}, {V}]"),
    "derived": ("{X}_[T0, T1]", "{X}[{K}, {V}]"),
    "fixed": ("{B}[{K}, {V}]", "{X}"),
    "value": ("{B}[{K}, T0]", "{X}[{V}]"),
    "same": ("{B}[T0, T0]", "{X}[{K}]"),  # Only for equal types of keys and values
    "items": ("{B}[T0, t.List[T1]]", "{X}[{K}, {J}]"),  # Only for lists as values
}
SUBS = {"decimal": "decimal.Decimal", "uuid": "uuid.UUID", "purepath": "pathlib.PurePosixPath", "winpath": "pathlib.PureWindowsPath"}


def how_collection(s) -> str:
    """The way to declare the class, given that not every type can be part of every declaration."""

    how = s[4]
    if how == "nested" and s[1][0] != "list":
        how = "generic"
    return "derived" if how in ("fixed", "grandchild") and has_ref(s) else how


def how_mapping(s) -> str:
    how = s[5]
    if how == "same" and s[1] != s[2] or how == "items" and s[2][0] != "list":
        how = "generic"
    return "reversed" if how in ("fixed", "value") and has_ref(s) else how


def has_ref(s) -> bool:
    return any(x[0] in ("ref", "uref", "tv") for x in walk(s))


def base_kind(s) -> str:
    """The kind of collection or mapping that the spec behaves like."""

    return s[3] if s[0] == "ccoll" else s[4] if s[0] == "cmap" else s[0]


def is_set(s) -> bool:
    return base_kind(s) in ("set", "frozenset", "aset", "mutset")

STRUCTS = ("dc", "td", "nt", "gdc")


class Reject(Exception):
    """The reference rejects the value/payload."""


Unknown = codec.Unknown


class Mismatch(Exception):
    """A value is not a value of the spec."""


# ------------------------------------------------------------------------------------------------- traversal


def children(spec) -> List[Any]:
    k = spec[0]
    if k in ("newtype",):
        return [spec[2]]
    if k in COLLECTIONS or k in ("opt", "ann"):
        return [spec[1]]
    if k in ("tuple", "union"):
        return list(spec[1])
    if k in MAPPINGS:
        return [spec[1], spec[2]]
    if k in ("dc", "td", "nt"):
        return [f["t"] for f in spec[2]]
    if k == "gdc":
        return [f["t"] for f in spec[2]] + list(spec[3])
    if k == "dunion":
        return [m for _, m in spec[5]]
    if k == "das":
        return [x for x in spec[3:5] if x]
    return []


def walk(spec):
    yield spec
    for c in children(spec):
        yield from walk(c)


def definitions(spec) -> Dict[str, Any]:
    return {s[1]: s for s in walk(spec) if s[0] in STRUCTS or s[0] == "dunion"}


def rename(spec, counter=None):
    """Gives every named type in the spec a unique name. `["ref", None]` refers to the closest enclosing dataclass, and
    `["uref"]` to the closest enclosing union."""

    counter = counter or itertools.count()
    unions: List[str] = []

    def fields(fs, owner):
        return [{**f, "t": go(f["t"], owner)} for f in fs]

    def go(s, owner):
        k = s[0]
        if k == "ref":
            return ["ref", owner] if owner is not None else ["int"]
        if k == "uref":
            return ["ref", unions[-1]] if unions else ["int"]
        if k == "newtype":
            return [k, f"N{next(counter)}", go(s[2], owner)]
        if k in COLLECTIONS or k in ("opt", "ann"):
            rest = [f"L{next(counter)}", *s[3:]] if k == "ccoll" else s[2:]
            return [k, go(s[1], owner), *rest]
        if k in ("tuple", "union"):
            return [k, [go(c, owner) for c in s[1]]]
        if k in MAPPINGS:
            rest = [f"M{next(counter)}", *s[4:]] if k == "cmap" else s[3:]
            return [k, go(s[1], owner), go(s[2], owner), *rest]
        if k == "sub":
            return [k, f"S{next(counter)}", s[2]]
        if k in ("enum", "intenum"):
            return [k, f"E{next(counter)}", s[2]]
        if k == "conv":
            return [k, f"V{next(counter)}"]
        if k == "dc":
            name = f"C{next(counter)}"
            return [k, name, fields(s[2], name), s[3]]
        if k == "gdc":
            name = f"G{next(counter)}"
            return [k, name, fields(s[2], None), [go(a, owner) for a in s[3]]]
        if k == "td":
            return [k, f"D{next(counter)}", fields(s[2], None), s[3]]
        if k == "nt":
            return [k, f"P{next(counter)}", fields(s[2], None)]
        if k == "das":
            return [k, s[1], f"A{next(counter)}", go(s[3], owner), s[4] and go(s[4], owner), s[5]]
        if k == "dunion":
            unions.append(f"U{next(counter)}")
            members = [[i, go(m, None)] for i, m in s[5]]
            return [k, unions.pop(), *s[2:5], members, s[6]]
        return s

    return go(spec, None)


def subst(spec, args):
    """Replaces type variables."""

    k = spec[0]
    if k == "tv":
        return args[spec[1]]
    if k in COLLECTIONS or k in ("opt", "ann"):
        return [k, subst(spec[1], args), *spec[2:]]
    if k in ("tuple", "union"):
        return [k, [subst(c, args) for c in spec[1]]]
    if k in MAPPINGS:
        return [k, subst(spec[1], args), subst(spec[2], args), *spec[3:]]
    if k == "gdc":
        return [k, spec[1], spec[2], [subst(a, args) for a in spec[3]]]
    return spec


def struct_fields(spec) -> List[Dict[str, Any]]:
    if spec[0] == "gdc":
        return [{**f, "t": subst(f["t"], spec[3])} for f in spec[2]]
    return spec[2]


def is_opt(spec) -> bool:
    """Whether None is one of the values of the (possibly annotated) type."""

    while spec[0] == "ann":
        spec = spec[1]
    return spec[0] == "opt"


def wire_key(f) -> str:
    return f["al"][0] if f.get("al") else f["n"]


def read_keys(f) -> List[str]:
    return list(f["al"]) if f.get("al") else [f["n"]]


# ------------------------------------------------------------------------------------------------- source code


class Renderer:
    def __init__(self, style: Dict[str, bool]) -> None:
        self.style = style
        self.defs: List[str] = []
        self.done = set()
        self.defaults: Dict[str, Tuple[Any, Any]] = {}
        self.marks: List[Tuple[str, str]] = []
        self.respelling = int(style.get("respell", 0)) + 1

    def annotated(self, inner: str, *meta: str) -> str:
        return f"te.Annotated[{inner}, {', '.join(meta)}]"

    def type(self, s) -> str:
        text = self.spelling(s)
        if "respell" not in self.style:
            return text
        return self.respelled(s, text)

    def respelled(self, s, text: str) -> str:
        """Another spelling of the same type, chosen by the number in the style."""

        k = s[0]
        n = self.respelling
        self.respelling = (n * 6364136223846793005 + 1442695040888963407) % 2**64
        n = n >> 33
        if k in ("tv", "ref", "dunion"):
            return text if n % 3 or k == "tv" else self.annotated(text, "'some documentation'")
        how = n % 12
        if k == "opt" and how % 2:
            inner = self.spelling(s[1])
            return [f"t.Optional[{inner}]", f"t.Union[None, {inner}]", f"t.Union[{inner}, None]", f"t.Optional[t.Optional[{inner}]]"][n // 12 % 4]
        if how == 0:
            return self.annotated(text, "Note()")
        if how == 1:
            return self.annotated(self.annotated(text, "'a'", "5"), "None", "Note()")
        if how == 2 and not is_opt(s) and not has_ref(s):
            name = f"W{len(self.defs)}"
            self.defs.append(f"{name} = t.NewType({name!r}, {text})\n")
            return name
        if how == 3 and not has_ref(s):
            name = f"W{len(self.defs)}"
            self.defs.append(f"{name} = {text}\n")
            return name
        if how == 5:
            return f"t.Union[{text}]"
        return text

    def spelling(self, s) -> str:
        k = s[0]
        modern = self.style.get("modern")
        if k in SCALARS:
            return SCALARS[k]
        if k == "literal":
            return f"t.Literal[{', '.join(map(repr, s[1]))}]"
        if k == "newtype":
            self.once(s[1], lambda: f"{s[1]} = t.NewType({s[1]!r}, {self.type(s[2])})\n")
            return s[1]
        if k == "enum":

            def gen():
                lines = [f"class {s[1]}(enum.Enum):"]
                for i, (m, al) in enumerate(s[2]):
                    ann = f": te.Annotated[int, Alias({', '.join(map(repr, al))})]" if al else ""
                    lines.append(f"    {m}{ann} = {i + 1}")
                return "\n".join(lines) + "\n"

            self.once(s[1], gen)
            return s[1]
        if k == "intenum":
            self.once(
                s[1], lambda: "\n".join([f"class {s[1]}(enum.IntEnum):"] + [f"    {m} = {v}" for m, v in s[2]]) + "\n"
            )
            return s[1]
        if k == "sub":
            self.once(s[1], lambda: f"class {s[1]}({SUBS[s[2]]}):\n    pass\n")
            return s[1]
        if k in ("ccoll", "cmap"):
            return self.container(s)
        if k in COLLECTIONS:
            name = COLLECTIONS[k][1 if modern else 0]
            return f"{name}[{self.type(s[1])}, ...]" if k == "vtuple" else f"{name}[{self.type(s[1])}]"
        if k == "tuple":
            name = "tuple" if modern else "t.Tuple"
            return f"{name}[{', '.join(map(self.type, s[1])) or '()'}]"
        if k in MAPPINGS:
            return f"{MAPPINGS[k][1 if modern else 0]}[{self.type(s[1])}, {self.type(s[2])}]"
        if k == "opt":
            inner = self.type(s[1])
            # A string can not be an operand of `|`, and neither can some of the special forms be.
            if modern and self.style.get("future"):
                return f"{inner} | None"
            return f"t.Optional[{inner}]"
        if k == "union":
            return f"t.Union[{', '.join(map(self.spelling, s[1]))}]"
        if k == "ann":
            return self.annotated(self.type(s[1]), "'some documentation'", "Note()", *s[2:])
        if k == "tv":
            return f"T{s[1]}"
        if k == "ref":
            return s[1] if self.style.get("future") else repr(s[1])
        if k == "conv":
            self.once(s[1], lambda: CONV.format(name=s[1]))
            return s[1]
        if k in ("dc", "gdc"):
            self.once(s[1], lambda: self.dataclass(s))
            if k == "gdc":
                return f"{s[1]}[{', '.join(map(self.type, s[3]))}]"
            return s[1]
        if k == "td":

            def gen():
                total = "" if s[3] else ", total=False"
                lines = [f"class {s[1]}(t.TypedDict{total}):"]
                for f in s[2]:
                    lines.append(f"    {f['n']}: {self.field_type(f)}")
                    if "d" in f:
                        key = f"{s[1]}.{f['n']}"
                        self.defaults[key] = (f["t"], f["d"][0])
                        lines[-1] += f" = _DEFAULT({key!r})"
                return "\n".join(lines + ([] if s[2] else ["    pass"])) + "\n"

            self.once(s[1], gen)
            return s[1]
        if k == "nt":
            self.once(
                s[1],
                lambda: "\n".join(
                    [f"class {s[1]}(t.NamedTuple):"] + [f"    {f['n']}: {self.field_type(f)}" for f in s[2]]
                )
                + "\n",
            )
            return s[1]
        if k == "dunion":
            return self.dunion(s)
        if k == "das":
            how = s[1].split(":")[-1]
            if how == "abstract":
                name = s[2]
                self.once(name, lambda: f"class {name}(abc.ABC):\n    pass\n")
            else:
                name = self.type(s[4])
            if how != "dataclass" and s[3][0] == "dc":
                for f in s[3][2]:
                    self.type(f["t"])
                self.once(s[3][1], lambda: self.dataclass(s[3], base=name))
            inner = self.type(s[3])
            if s[1].startswith("local:"):
                self.marks.append((name, inner))
                return name
            meta = [f"DeserializeAs({inner})"]
            if s[5] is not None:
                meta.append("ExtraKeys()" if s[5] else "ExtraKeys(False)")
            return self.annotated(name, *meta)
        raise AssertionError(k)

    def container(self, s) -> str:
        """An own collection or mapping class."""

        if s[0] == "ccoll":
            _, item, name, base, _ = s
            how = how_collection(s)
            bases, use = CCOLL[how]
            types = {"I": item}
            spellings = COLLECTIONS[base]
            grand = "class {X}_({B}[T0]):\n    pass\n\n" if how in ("derived", "grandchild") else ""
        else:
            _, key, value, name, base, _ = s
            how = how_mapping(s)
            bases, use = CMAP[how]
            types = {"K": key, "V": value}
            spellings = MAPPINGS[base]
            grand = "class {X}_({B}[T0, T1]):\n    pass\n\n" if how == "derived" else ""
        last = s[1] if s[0] == "ccoll" else s[2]
        if how in ("nested", "items"):
            types["J"] = last[1]
        texts = {a: self.type(x) for a, x in types.items()}
        # The bases of a class are evaluated by Python itself.
        plain = Renderer({"modern": bool(self.style.get("modern"))})
        names = {"X": name, "B": spellings[0], "b": spellings[1]}

        def gen():
            own = {a: plain.type(x) for a, x in types.items()}
            return (grand + "class {X}(" + bases + "):\n    pass\n").format(**names, **own)

        self.once(name, gen)
        return use.format(**names, **texts)

    def once(self, name: str, gen) -> None:
        if name not in self.done:
            self.done.add(name)
            self.defs.append(gen())

    def field_type(self, f) -> str:
        meta = []
        if f.get("al"):
            meta.append(f"Alias({', '.join(map(repr, f['al']))})")
        if "req" in f:
            meta.append(f"Required({f['req']!r})" if not f["req"] else "Required()")
        if f.get("flat"):
            meta.append("Flattened()")
        if f.get("rem"):
            meta.append("Remainder()")
        meta.extend(f.get("meta", []))
        inner = self.type(f["t"])
        if "respell" in self.style and not self.style.get("future") and self.respelling >> 40 & 1 and "'" not in inner:
            inner = repr(inner)
        return self.annotated(inner, *meta) if meta else inner

    def dataclass(self, s, base: Optional[str] = None, decorators: Tuple[str, ...] = ()) -> str:
        opts = s[3] if s[0] == "dc" else {}
        args = ", ".join(f"{k}=True" for k in ("frozen", "slots") if opts.get(k))
        lines = []
        if opts.get("extra") is not None:
            rec = f", _RECORDER({s[1]!r})" if opts.get("rec") else ""
            lines.append("@ExtraKeys()" if opts["extra"] is True and not rec else f"@ExtraKeys({opts['extra']!r}{rec})")
        lines.append(f"@dataclasses.dataclass({args})" if args else "@dataclasses.dataclass")
        lines.extend(decorators)
        bases = [b for b in [base] if b]
        if s[0] == "gdc":
            bases.append(f"t.Generic[{', '.join(f'T{i}' for i in range(len(s[3])))}]")
        lines.append(f"class {s[1]}({', '.join(bases)}):" if bases else f"class {s[1]}:")
        body = []
        fields = s[2]
        for f in fields:
            line = f"    {f['n']}: {self.field_type(f)}"
            if "d" in f:
                key = f"{s[1]}.{f['n']}"
                self.defaults[key] = (f["t"], f["d"][0])
                if is_plain_default(f["t"]):
                    line += f" = dataclasses.field(default=_DEFAULT({key!r}))"
                else:
                    line += f" = dataclasses.field(default_factory=lambda: _DEFAULT({key!r}))"
            body.append(line)
        return "\n".join(lines + (body or ["    pass"])) + "\n"

    def dunion(self, s) -> str:
        _, name, style, dkey, nkey, members, how = s
        args = [f"style=Union.{style.upper()}"]
        if dkey != "type":
            args.append(f"discriminator_key={dkey!r}")
        if nkey is not None:
            args.append(f"nesting_key={nkey!r}")
        if how == "class":

            def gen():
                out = [f"@Union({', '.join(args)})\nclass {name}:\n    pass\n"]
                for mid, m in members:
                    self.done.add(m[1])
                    text = self.dataclass(m, base=name, decorators=(f"@Union.register({name}, {mid!r})",))
                    out.append(text)
                return "\n".join(out)

            # The types of the fields have to come first.
            if name not in self.done:
                for _, m in members:
                    for f in m[2]:
                        self.type(f["t"])
            self.once(name, gen)
            return name
        exprs = [self.spelling(m) for _, m in members]
        table = ", ".join(f"{mid!r}: {e}" for (mid, _), e in zip(members, exprs))
        self.once(
            name,
            lambda: f"{name} = {self.annotated(f't.Union[{chr(44).join(exprs)}]', f'Union({{{table}}}, {chr(44).join(args)})')}\n",
        )
        return name

    def module(self, spec) -> str:
        hint = self.type(spec)
        if self.style.get("future") and "|" in hint:
            # The root hint is evaluated by Python itself.
            hint = Renderer({"modern": bool(self.style.get("modern"))}).type(spec)
        header = HEADER.format(future="from __future__ import annotations\n" if self.style.get("future") else "")
        return header + "\n".join(self.defs) + f"\nHINT = {hint}\n"


CONV = """\
@JsonConverter.using_classmethods(str, serialize="to_wire", deserialize="from_wire")
class {name}:
    def __init__(self, text):
        self.text = text
    def __eq__(self, other):
        return type(other) is type(self) and other.text == self.text
    def __hash__(self):
        return hash(self.text)
    def to_wire(self):
        return "~" + self.text
    @classmethod
    def from_wire(cls, s):
        return cls(s[1:] if s.startswith("~") else s)
"""


def is_plain_default(s) -> bool:
    k = s[0]
    if k in ("newtype",):
        return is_plain_default(s[2])
    if k in ("ann",):
        return is_plain_default(s[1])
    if k == "opt":
        return is_plain_default(s[1])
    return k in SCALARS and k not in ("any", "object", "duration") or k in ("enum", "intenum", "literal", "sub")


_module_counter = itertools.count()


class World:
    """The executed module of a spec."""

    # Whether a value that is equal to one of the values of a literal type is a value of it.
    loose = False

    def __init__(self, spec, style: Optional[Dict[str, bool]] = None, extra_source: str = "") -> None:
        r = Renderer(style or {})
        # The caches of the typing module confuse types that differ only in the order of the members of a union.
        for clear in getattr(typing, "_cleanups", []):
            clear()
        self.spec = spec
        self.source = r.module(spec) + extra_source
        self.marks = r.marks
        self.name = f"pbt_case_{next(_module_counter)}"
        self.module = types.ModuleType(self.name)
        self.defs = definitions(spec)
        sys.modules[self.name] = self.module
        self.ns = vars(self.module)
        self.ns["_DEFAULT"] = lambda key: self.build(*r.defaults[key])
        # Calls to the recorders of extra keys: (label, keys)
        self.records: List[Tuple[str, Any]] = []
        self.ns["_RECORDER"] = self.recorder
        code = compile(self.source, f"<{self.name}>", "exec", dont_inherit=True)
        exec(code, self.ns)
        self.hint = self.ns["HINT"]

    def __enter__(self):
        return self

    def __exit__(self, *args) -> None:
        sys.modules.pop(self.name, None)

    def recorder(self, label: str):
        return lambda ctx, keys: self.records.append((label, sorted(keys)))

    def cls(self, spec):
        return self.ns[spec[1]]

    # --- raw -> value

    def build(self, s, raw):
        return self.build_part(s, raw)

    def build_with(self, s, raw, hook):
        """Like `build()`, with hook(spec, value) being applied to every part."""

        self.build = lambda s, raw: hook(s, self.build_part(s, raw))  # type: ignore[method-assign]
        try:
            return self.build(s, raw)
        finally:
            del self.build

    def build_part(self, s, raw):
        k = s[0]
        if k in ("int", "float", "bool", "str", "bytes", "any", "object", "literal"):
            return copy_json(raw) if k in ("any", "object") else raw
        if k == "decimal":
            return decimal.Decimal(raw)
        if k == "date":
            return datetime.date(*raw)
        if k == "time":
            return datetime.time(*raw)
        if k == "datetime":
            *rest, tz = raw
            tzinfo = None if tz is None else datetime.timezone.utc if tz == 0 else datetime.timezone(datetime.timedelta(minutes=tz))
            return datetime.datetime(*rest, tzinfo=tzinfo)
        if k == "duration":
            return self.ns["duration"](*raw)
        if k == "uuid":
            return uuid.UUID(int=raw)
        if k == "path":
            return pathlib.Path(raw)
        if k == "purepath":
            return pathlib.PurePath(raw)
        if k == "winpath":
            return pathlib.PureWindowsPath(raw)
        if k in ("enum", "intenum"):
            return self.cls(s)[raw]
        if k == "newtype":
            return self.build(s[2], raw)
        if k == "ann":
            return self.build(s[1], raw)
        if k == "das":
            return self.build(s[3], raw)
        if k == "sub":
            return self.cls(s)(str(uuid.UUID(int=raw)) if s[2] == "uuid" else raw)
        if k in COLLECTIONS:
            t = self.ns[s[2]] if k == "ccoll" else COLLECTIONS[k][2]
            if k in ("seq", "coll", "mutseq"):
                t = list
            if k in ("aset", "mutset"):
                t = set
            return t(self.build(s[1], x) for x in raw)
        if k == "tuple":
            return tuple(self.build(c, x) for c, x in zip(s[1], raw))
        if k in MAPPINGS:
            t = self.ns[s[3]] if k == "cmap" else MAPPINGS[k][2] if k in ("dict", "odict", "ddict") else dict
            pairs = [(self.build(s[1], a), self.build(s[2], b)) for a, b in raw]
            return t(None, pairs) if base_kind(s) == "ddict" else t(pairs)
        if k == "opt":
            return None if raw is None else self.build(s[1], raw[0])
        if k == "union":
            return self.build(s[1][raw[0]], raw[1])
        if k == "ref":
            return self.build(self.defs[s[1]], raw)
        if k in STRUCTS:
            values = {f["n"]: self.build(f["t"], raw[f["n"]]) for f in struct_fields(s) if f["n"] in raw}
            return values if k == "td" else self.cls(s)(**values)
        if k == "dunion":
            return self.build(dict(map(tuple, s[5]))[raw[0]], raw[1])
        if k == "conv":
            return self.cls(s)(raw)
        raise AssertionError(k)

    # --- value -> raw, checking that the value is one of the spec

    def abstract(self, s, v):
        k = s[0]
        if k in ("int", "float", "bool", "str", "bytes"):
            want(type(v).__name__ == k, s, v)
            return v
        if k in ("any", "object"):
            return v
        if k == "literal":
            want(any((type(v) is type(x) or self.loose) and v == x for x in s[1]), s, v)
            return v
        if k == "decimal":
            want(type(v) is decimal.Decimal, s, v)
            return str(v)
        if k == "date":
            want(type(v) is datetime.date, s, v)
            return (v.year, v.month, v.day)
        if k == "time":
            want(type(v) is datetime.time and v.tzinfo is None, s, v)
            return (v.hour, v.minute, v.second, v.microsecond)
        if k == "datetime":
            want(type(v) is datetime.datetime, s, v)
            off = v.utcoffset()
            tz = None if off is None else off.total_seconds() / 60
            return (v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond, int(tz) if tz is not None else None)
        if k == "duration":
            want(type(v) is self.ns["duration"], s, v)
            return tuple(getattr(v, n) for n in DURATION_FIELDS)
        if k == "uuid":
            want(type(v) is uuid.UUID, s, v)
            return v.int
        if k in ("path", "purepath", "winpath"):
            want(
                type(v)
                is {"path": pathlib.PosixPath, "purepath": pathlib.PurePosixPath, "winpath": pathlib.PureWindowsPath}[k],
                s,
                v,
            )
            return str(v)
        if k in ("enum", "intenum"):
            want(type(v) is self.cls(s), s, v)
            return v.name
        if k == "newtype":
            return self.abstract(s[2], v)
        if k == "ann":
            return self.abstract(s[1], v)
        if k == "das":
            return self.abstract(s[3], v)
        if k == "sub":
            want(type(v) is self.cls(s), s, v)
            return v.int if s[2] == "uuid" else str(v)
        if k in COLLECTIONS:
            t = self.ns[s[2]] if k == "ccoll" else COLLECTIONS[k][2]
            if k in ("seq", "coll", "mutseq", "aset", "mutset"):
                want(isinstance(v, t) and not isinstance(v, (str, bytes)), s, v)
            else:
                want(type(v) is t, s, v)
            items = [self.abstract(s[1], x) for x in v]
            if is_set(s):
                items.sort(key=codec.canon)
            return items
        if k == "tuple":
            want(type(v) is tuple and len(v) == len(s[1]), s, v)
            return [self.abstract(c, x) for c, x in zip(s[1], v)]
        if k in MAPPINGS:
            t = self.ns[s[3]] if k == "cmap" else MAPPINGS[k][2] if k in ("dict", "odict", "ddict") else dict
            want(type(v) is t, s, v)
            want(base_kind(s) != "ddict" or v.default_factory is None, s, v)
            items = [[self.abstract(s[1], a), self.abstract(s[2], b)] for a, b in v.items()]
            if base_kind(s) != "odict":
                items.sort(key=lambda p: codec.canon(p[0]))
            return items
        if k == "opt":
            return None if v is None else [self.abstract(s[1], v)]
        if k == "union":
            for i, m in enumerate(s[1]):
                try:
                    return [i, self.abstract(m, v)]
                except Mismatch:
                    pass
            raise Mismatch(f"{v!r} is not a value of any member of {s}")
        if k == "ref":
            return self.abstract(self.defs[s[1]], v)
        if k == "td":
            want(type(v) is dict, s, v)
            fields = {f["n"]: f for f in s[2]}
            want(v.keys() <= fields.keys(), s, v)
            for n, f in fields.items():
                want(n in v or not s[3], s, v)
            return {n: self.abstract(fields[n]["t"], x) for n, x in v.items()}
        if k in STRUCTS:
            want(type(v) is self.cls(s), s, v)
            out = {}
            for f in struct_fields(s):
                try:
                    x = getattr(v, f["n"])
                except AttributeError:
                    raise Mismatch(f"{type(v).__name__} has no {f['n']}")
                out[f["n"]] = self.abstract(f["t"], x)
            return out
        if k == "dunion":
            for mid, m in s[5]:
                try:
                    return [mid, self.abstract(m, v)]
                except Mismatch:
                    pass
            raise Mismatch(f"{v!r} is not a value of any member of {s[1]}")
        if k == "conv":
            want(type(v) is self.cls(s), s, v)
            return v.text
        raise AssertionError(k)

    def normal(self, s, raw):
        return self.abstract(s, self.build(s, raw))

    # --- reference for dumping: value -> wire (with `Iso`, `SetOf` as place holders)

    def ref_dump(self, s, v):
        k = s[0]
        if k in ("any", "object"):
            return v
        if k == "int":
            if type(v) is float:
                if not v.is_integer():
                    raise Reject
                return int(v)
            need(type(v) is int)
            return v
        if k == "float":
            if type(v) is int:
                try:
                    return float(v)
                except OverflowError:
                    raise Reject
            need(type(v) is float)
            return v
        if k in ("bool", "str"):
            need(type(v).__name__ == k)
            return v
        if k == "bytes":
            need(type(v) is bytes)
            return base64.b64encode(v).decode()
        if k == "decimal":
            need(isinstance(v, decimal.Decimal))
            return str(v)
        if k in ("date", "time", "datetime"):
            t = getattr(datetime, k)
            need(isinstance(v, t))
            if k == "date" and isinstance(v, datetime.datetime):
                raise Unknown
            return v.isoformat() if k == "date" else Iso(k, v)
        if k == "duration":
            need(type(v) is self.ns["duration"])
            return Iso(k, v)
        if k == "uuid":
            need(isinstance(v, uuid.UUID))
            return str(v)
        if k in ("path", "purepath", "winpath"):
            t = {"path": pathlib.Path, "purepath": pathlib.PurePath, "winpath": pathlib.PureWindowsPath}[k]
            need(isinstance(v, t))
            return str(v)
        if k == "enum":
            need(type(v) is self.cls(s))
            for m, al in s[2]:
                if m == v.name:
                    return al[0] if al else m
            raise Unknown
        if k == "intenum":
            need(type(v) is self.cls(s))
            return int(v)
        if k == "literal":
            for x in s[1]:
                if type(x) is type(v) and x == v:
                    return v
            if any(x == v for x in s[1]):
                raise Unknown
            raise Reject
        if k == "newtype":
            return self.ref_dump(s[2], v)
        if k == "ann":
            return self.ref_dump(s[1], v)
        if k == "das":
            return self.ref_dump(s[3], v)
        if k == "sub":
            need(isinstance(v, self.cls(s)))
            return str(v)
        if k in COLLECTIONS:
            t = self.ns[s[2]] if k == "ccoll" else COLLECTIONS[k][2]
            if isinstance(v, (str, bytes, collections.abc.Mapping)) and k in ("seq", "coll"):
                raise Unknown
            need(isinstance(v, t))
            items = [self.ref_dump(s[1], x) for x in v]
            return SetOf(items) if isinstance(v, collections.abc.Set) else items
        if k == "tuple":
            need(isinstance(v, tuple) and len(v) == len(s[1]))
            return [self.ref_dump(c, x) for c, x in zip(s[1], v)]
        if k in MAPPINGS:
            need(isinstance(v, collections.abc.Mapping))
            if k in ("mutmapping", "odict", "ddict") and type(v) is not MAPPINGS[k][2] and type(v) is not dict:
                raise Unknown
            if k == "cmap" and type(v) is not self.ns[s[3]]:
                raise Unknown
            return {self.ref_dump(s[1], a): self.ref_dump(s[2], b) for a, b in v.items()}
        if k == "opt":
            return None if v is None else self.ref_dump(s[1], v)
        if k == "union":
            for m in s[1]:
                try:
                    return self.ref_dump(m, v)
                except Reject:
                    pass
            raise Reject
        if k == "ref":
            return self.ref_dump(self.defs[s[1]], v)
        if k == "td":
            need(isinstance(v, collections.abc.Mapping))
            if v.keys() - {f["n"] for f in s[2]}:
                raise Unknown
            out = {}
            for f in s[2]:
                if f["n"] in v:
                    x = self.ref_dump(f["t"], v[f["n"]])
                    out.update(x if f.get("flat") else {wire_key(f): x})
                elif s[3] and not is_opt(f["t"]) and "d" not in f:
                    raise Reject
            return out
        if k in STRUCTS:
            need(isinstance(v, self.cls(s)))
            return self.dump_fields(s, v)
        if k == "dunion":
            _, _, style, dkey, nkey, members, _ = s
            for mid, m in members:
                t = self.member_type(m)
                if type(v) is t:
                    w = self.ref_dump(m, v)
                    if style == "nested":
                        return {dkey: mid, (nkey or mid): w}
                    if style == "keyed":
                        return {mid: w}
                    return {dkey: mid, **w}
            raise Reject
        if k == "conv":
            need(isinstance(v, self.cls(s)))
            return "~" + v.text
        raise AssertionError(k)

    def member_type(self, m):
        if m[0] in SCALARS:
            return eval(SCALARS[m[0]], self.ns)
        return self.cls(m)

    def dump_fields(self, s, v, serialize_defaults: bool = True):
        out = {}
        rest: Dict[str, Any] = {}
        for f in struct_fields(s):
            x = getattr(v, f["n"])
            w = self.ref_dump(f["t"], x)
            if f.get("flat"):
                out.update(w)
                continue
            if not serialize_defaults and self.is_default(f, x):
                continue
            if f.get("rem"):
                rest = w
            else:
                out[wire_key(f)] = w
        if rest.keys() & out.keys():
            raise Reject
        out.update(rest)
        return out

    def is_default(self, f, x) -> bool:
        if "d" in f:
            return x == self.build(f["t"], f["d"][0])
        if is_opt(f["t"]) and f.get("req") is not True:
            return x is None
        return False

    # --- reference for loading: payload (plain JSON) -> raw

    def ref_load(self, s, p):
        k = s[0]
        if k in ("any", "object"):
            return p
        if k == "int":
            if type(p) is float:
                if not p.is_integer():
                    raise Reject
                return int(p)
            need(type(p) is int)
            return p
        if k == "float":
            if type(p) is int:
                try:
                    return float(p)
                except OverflowError:
                    raise Reject
            need(type(p) is float)
            return p
        if k in ("bool", "str"):
            need(type(p).__name__ == k)
            return p
        if k == "bytes":
            need(type(p) is str)
            try:
                return base64.b64decode(p)
            except ValueError:
                raise Reject
        if k == "sub":
            return self.ref_load([s[2]], p)
        if k == "decimal":
            need(type(p) is str)
            try:
                return str(decimal.Decimal(p))
            except decimal.DecimalException:
                raise Reject
        if k in ("date", "time", "datetime"):
            need(type(p) is str)
            t = getattr(datetime, k)
            if not re.search(r"\d", p):
                raise Reject
            if not CANONICAL[k].fullmatch(p):
                raise Unknown
            try:
                return self.abstract(s, t.fromisoformat(p))
            except ValueError:
                raise Unknown
        if k == "duration":
            if type(p) is dict:
                raise Unknown  # A duration is a dataclass, too
            need(type(p) is str)
            m = DURATION.fullmatch(p)
            if not m or p in ("P", "PT"):
                if not p.startswith("P"):
                    raise Reject
                raise Unknown
            return tuple(int(x or 0) for x in m.groups()) + (0,)
        if k == "uuid":
            need(type(p) is str)
            try:
                return uuid.UUID(p).int
            except ValueError:
                raise Reject
        if k in ("path", "purepath", "winpath"):
            need(type(p) is str)
            t = {"path": pathlib.Path, "purepath": pathlib.PurePath, "winpath": pathlib.PureWindowsPath}[k]
            return str(t(p))
        if k == "enum":
            need(type(p) is str)
            for m, al in s[2]:
                if p in al:
                    return m
            for m, al in s[2]:
                if p == m:
                    return m
            raise Reject
        if k == "intenum":
            need(type(p) is int)
            for m, v in s[2]:
                if v == p:
                    return m
            raise Reject
        if k == "literal":
            for x in s[1]:
                if type(x) is type(p) and x == p:
                    return p
            if any(x == p for x in s[1]):
                raise Unknown
            raise Reject
        if k == "newtype":
            return self.ref_load(s[2], p)
        if k == "ann":
            return self.ref_load(s[1], p)
        if k == "das":
            if s[5] is None:
                return self.ref_load(s[3], p)
            need(type(p) is dict)
            inner = s[3] if s[3][0] != "dc" else [*s[3][:3], {**s[3][3], "extra": s[5]}]
            return self.load_fields(inner, p, extra=s[5])
        if k in COLLECTIONS:
            need(type(p) is list)
            items = [self.ref_load(s[1], x) for x in p]
            if is_set(s):
                try:
                    return self.normal(s, items)
                except TypeError:
                    raise Reject  # Not hashable
            return items
        if k == "tuple":
            need(type(p) is list and len(p) == len(s[1]))
            return [self.ref_load(c, x) for c, x in zip(s[1], p)]
        if k in MAPPINGS:
            need(type(p) is dict)
            return self.normal(s, [[self.ref_load(s[1], a), self.ref_load(s[2], b)] for a, b in p.items()])
        if k == "opt":
            return None if p is None else [self.ref_load(s[1], p)]
        if k == "union":
            for i, m in enumerate(s[1]):
                try:
                    return [i, self.ref_load(m, p)]
                except Reject:
                    pass
            raise Reject
        if k == "ref":
            return self.ref_load(self.defs[s[1]], p)
        if k in STRUCTS:
            need(type(p) is dict)
            return self.load_fields(s, p)
        if k == "dunion":
            _, _, style, dkey, nkey, members, _ = s
            need(type(p) is dict)
            table = dict(map(tuple, members))
            if style == "keyed":
                need(len(p) == 1)
                (mid, inner), = p.items()
                need(mid in table)
                return [mid, self.ref_load(table[mid], inner)]
            need(dkey in p)
            mid = p[dkey]
            need(type(mid) is str and mid in table)
            if style == "nested":
                need((nkey or mid) in p)
                inner = p[nkey or mid]
            else:
                inner = {a: b for a, b in p.items() if a != dkey}
            return [mid, self.ref_load(table[mid], inner)]
        if k == "conv":
            if type(p) is not str:
                raise Reject
            return p[1:] if p.startswith("~") else p
        raise AssertionError(k)

    def is_required(self, s, f) -> bool:
        if "req" in f:
            return f["req"]
        if s[0] == "td":
            return bool(s[3]) and not is_opt(f["t"]) and "d" not in f
        return not is_opt(f["t"]) and "d" not in f

    def load_fields(self, s, p, extra: Optional[bool] = None, used: Optional[set] = None):
        """*extra*: whether extra keys are allowed by a setting other than the one on the class."""

        out: Dict[str, Any] = {}
        own = used is None
        used = set() if used is None else used
        rem = None
        for f in struct_fields(s):
            if f.get("rem"):
                rem = f
                continue
            if f.get("flat"):
                inner = f["t"]
                while inner[0] == "ann":
                    inner = inner[1]
                if inner[0] == "ref":
                    inner = self.defs[inner[1]]
                out[f["n"]] = self.load_fields(inner, p, used=used)
                continue
            for key in read_keys(f):
                if key in p:
                    used.add(key)
                    out[f["n"]] = self.ref_load(f["t"], p[key])
                    break
            else:
                if self.is_required(s, f):
                    raise Reject
                if "d" in f:
                    out[f["n"]] = self.normal(f["t"], f["d"][0])
                elif is_opt(f["t"]):
                    if s[0] != "td" or s[3]:
                        out[f["n"]] = None
                    else:
                        raise Unknown
                elif f.get("req") is False:
                    raise Unknown
        if own:
            unused = {a: b for a, b in p.items() if a not in used}
            if rem is not None:
                out[rem["n"]] = self.ref_load(rem["t"], unused)
            elif unused:
                allowed = s[3].get("extra") if s[0] == "dc" else None
                if allowed is None:
                    allowed = bool(extra)
                if not allowed:
                    raise Reject
        return out


DURATION_FIELDS = ["years", "months", "weeks", "days", "hours", "minutes", "seconds", "microseconds"]
DURATION = re.compile(r"P(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)W)?(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?)?")
CANONICAL = {
    "date": re.compile(r"\d{4}-\d\d-\d\d", re.A),
    "time": re.compile(r"\d\d:\d\d:\d\d(\.\d{1,6})?", re.A),
    "datetime": re.compile(r"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d{1,6})?(Z|[+-]\d\d:\d\d)?", re.A),
}


def want(cond: bool, s, v) -> None:
    if not cond:
        raise Mismatch(f"{type(v).__name__} {v!r} is not a value of {s}")


def need(cond: bool) -> None:
    if not cond:
        raise Reject


def copy_json(v):
    if isinstance(v, list):
        return [copy_json(x) for x in v]
    if isinstance(v, dict):
        return {k: copy_json(x) for k, x in v.items()}
    return v


class Iso:
    """Stands for any ISO 8601 text of a point in time or a duration."""

    def __init__(self, kind: str, value: Any) -> None:
        self.kind = kind
        self.value = value

    def __repr__(self) -> str:
        return f"<ISO 8601 text of {self.value!r}>"

    def text(self) -> str:
        return str(self.value) if self.kind == "duration" else self.value.isoformat()

    def matches(self, actual: Any) -> bool:
        if type(actual) is not str:
            return False
        if self.kind == "duration":
            m = DURATION.fullmatch(actual)
            if not m:
                return False
            return [int(x or 0) for x in m.groups()] == [getattr(self.value, n) for n in DURATION_FIELDS[:7]]
        try:
            parsed = getattr(datetime, self.kind).fromisoformat(actual)
        except ValueError:
            return False
        if parsed.tzinfo is None or self.value.tzinfo is None:
            return parsed.tzinfo is None and self.value.tzinfo is None and parsed == self.value
        return parsed == self.value and parsed.utcoffset() == self.value.utcoffset()


class SetOf:
    """Stands for a list of the items in any order."""

    def __init__(self, items: List[Any]) -> None:
        self.items = items

    def __repr__(self) -> str:
        return f"<any order of {self.items!r}>"


def wire_matches(expected: Any, actual: Any) -> bool:
    if isinstance(expected, Iso):
        return expected.matches(actual)
    if isinstance(expected, SetOf):
        if type(actual) is not list or len(actual) != len(expected.items):
            return False
        left = list(actual)
        for e in expected.items:
            for i, a in enumerate(left):
                if wire_matches(e, a):
                    del left[i]
                    break
            else:
                return False
        return True
    if type(expected) is not type(actual):
        return False
    if isinstance(expected, dict):
        return expected.keys() == actual.keys() and all(wire_matches(expected[k], actual[k]) for k in expected)
    if isinstance(expected, list):
        return len(expected) == len(actual) and all(map(wire_matches, expected, actual))
    if isinstance(expected, float):
        return repr(expected) == repr(actual)
    return expected == actual


def wire_text(w: Any) -> Any:
    """A plain JSON payload for a reference wire form."""

    if isinstance(w, Iso):
        return w.text()
    if isinstance(w, SetOf):
        return [wire_text(x) for x in w.items]
    if isinstance(w, dict):
        return {wire_text(k): wire_text(x) for k, x in w.items()}
    if isinstance(w, list):
        return [wire_text(x) for x in w]
    return w


def is_json_native(v: Any) -> bool:
    """Only exactly the types that the json module itself produces."""

    if v is None or type(v) in (bool, int, float, str):
        return True
    if type(v) is list:
        return all(map(is_json_native, v))
    if type(v) is dict:
        return all(type(k) is str and is_json_native(x) for k, x in v.items())
    return False


def size(spec) -> int:
    return sum(1 for _ in walk(spec))


def kinds(spec) -> List[str]:
    return sorted({s[0] for s in walk(spec)})
