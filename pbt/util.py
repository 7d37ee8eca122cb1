"""Calling databind from the checks."""

from typing import Any, List, Optional, Tuple

from databind.core import ConversionError
from databind.json import dump, get_object_mapper, load

from pbt.runner import Info, Part, Violation  # noqa: F401
from pbt import codec, spec as S


def attempt(fn, *args, **kwargs) -> Tuple[bool, Any]:
    """(True, result) or (False, ConversionError). Anything else that is raised violates the property."""

    try:
        return True, fn(*args, **kwargs)
    except ConversionError as exc:
        return False, exc


def check(cond: bool, message) -> None:
    if not cond:
        raise Violation(message() if callable(message) else message)


def describe(case: Any) -> str:
    """The source code of the world of a case, for humans."""

    try:
        r = S.Renderer(case.get("style") or {})
        return r.module(case["spec"])[len(S.HEADER) - 8 :].strip()
    except Exception as exc:
        return f"(no source: {exc})"


def expect_raw(w: S.World, s, raw: Any, value: Any, what: str) -> None:
    """Checks that a loaded value is exactly the value that *raw* describes."""

    try:
        got = w.abstract(s, value)
    except S.Mismatch as exc:
        raise Violation(f"{what}: the result is not a value of the type: {exc}\n{w.source[600:]}")
    if codec.canon(got) != codec.canon(raw):
        raise Violation(f"{what}: expected {raw!r}, got {got!r}\n{w.source[600:]}")


__all__ = ["attempt", "check", "describe", "dump", "expect_raw", "get_object_mapper", "load", "Info", "Part", "Violation", "ConversionError", "List", "Optional"]
