"""Probes for the known findings (known_findings.txt): each raises Violation for as long as the defect exists."""

import dataclasses
import datetime
import sys
import types
import typing as t

from databind.core import ConversionError, DeserializeAs, Flattened, Remainder
from databind.json import dump, load

from pbt.runner import Violation


def timedelta():
    """The README lists timedelta among the supported types."""

    value = datetime.timedelta(days=1, seconds=5)
    try:
        wire = dump(value, datetime.timedelta)
        back = load(wire, datetime.timedelta)
    except ConversionError as exc:
        raise Violation(f"a timedelta can not be converted: {exc}")
    if back != value:
        raise Violation(f"{back!r} != {value!r}")


def remainder_in_flattened():
    @dataclasses.dataclass
    class Inner:
        a: int
        rest: t.Annotated[t.Dict[str, int], Remainder()]

    @dataclasses.dataclass
    class Outer:
        inner: t.Annotated[Inner, Flattened()]
        b: int

    # The annotations are resolved in the module
    globals().update(Inner=Inner, Outer=Outer)
    value = Outer(Inner(1, {"c": 3}), 2)
    try:
        back = load(dump(value, Outer), Outer)
    except (ConversionError, TypeError) as exc:
        raise Violation(f"load() failed: {exc}")
    if back != value:
        raise Violation(f"{back!r} != {value!r}")


def deserialize_as_ignored():
    """The mark has no effect if a converter for the original type accepts the payload."""

    @dataclasses.dataclass
    class Impl:
        a: int

    try:
        value = load(5, t.Annotated[int, DeserializeAs(Impl)])
    except ConversionError:
        return
    raise Violation(f"load(5) as Impl gave {value!r}")


def postponed_setting_names():
    """The arguments of settings are not evaluated in postponed annotations, unless they are literals."""

    source = """
import dataclasses, typing as t
from databind.core import Alias
NAME = "x"
@dataclasses.dataclass
class A:
    f: t.Annotated[int, Alias(NAME)]
"""
    values = []
    for i, first in enumerate(["", "from __future__ import annotations\n"]):
        name = f"pbt_finding_postponed_{i}"
        mod = sys.modules[name] = types.ModuleType(name)
        try:
            exec(compile(first + source, name, "exec", dont_inherit=True), mod.__dict__)
            values.append(dump(mod.A(1), mod.A))
        finally:
            del sys.modules[name]
    if values[0] != values[1]:
        raise Violation(f"dump() gave {values[0]!r}, but {values[1]!r} with postponed annotations")
