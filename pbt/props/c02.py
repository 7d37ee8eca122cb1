import collections
import dataclasses
import datetime
import json
import typing as t

import typing_extensions as te
from hypothesis import strategies as st

from databind.core import Remainder

from pbt import gen, spec as S
from pbt.props.c03 import HASHABLE, KEY_SHAPES, key_cases
from pbt.util import Info, Part, Violation, attempt, check, describe, dump, load

ID = "C02"
TECHNIQUE = "property-based testing: dumped form against an independent reference encoder"
RULE = (
    "A case is a generated type (rendered as a Python module with its classes) together with a value of it. Non-trivial: "
    "the type has at least two nodes, or its representation differs from the value. In another part, mappings whose keys are collections, which have no representation, are refused."
)


@st.composite
def cases(draw):
    g = gen.Gen(depth=draw(st.sampled_from([0, 1, 2, 2, 3])))
    s = draw(g.spec())
    return {"spec": s, "raw": draw(gen.raws(s)), "style": draw(gen.styles())}


def run(case):
    s = case["spec"]
    with S.World(s, case["style"]) as w:
        value = w.build(s, case["raw"])
        expected = w.ref_dump(s, value)
        wire = dump(value, w.hint)
        check(S.is_json_native(wire), lambda: f"not plain JSON data: {wire!r}")
        check(S.wire_matches(expected, wire), lambda: f"dump() gave {wire!r}, expected {expected!r}")
        try:
            json.dumps(wire)
        except (TypeError, ValueError) as exc:
            raise Violation(f"the dumped value {wire!r} can not be encoded as JSON: {exc}")
    return Info(S.size(s) > 1 or not S.is_json_native(value), S.kinds(s))


def run_keys(case):
    """Keys of mappings whose form is a list have no form as keys."""

    kind = case["type"]
    make = frozenset if kind in ("frozenset", "set") else tuple
    key_type = {**HASHABLE, "list": t.Sequence[int], "set": t.AbstractSet[int], "sequence": t.Sequence[int], "any": t.Tuple[int, ...]}[kind]
    wrap_hint, wrap = KEY_SHAPES[case["shape"]]
    mapping = {"OrderedDict": collections.OrderedDict, "DefaultDict": lambda x: collections.defaultdict(int, x)}.get(case["mapping"], dict)
    hint = wrap_hint(getattr(t, case["mapping"])[key_type, int])
    value = wrap(mapping({make(k): i for i, k in enumerate(case["keys"])}))
    ok, wire = attempt(dump, value, hint)
    if case["keys"]:
        check(not ok, lambda: f"dump({value!r}, {hint}) gave {wire!r}")
    else:
        check(ok and wire == wrap({}), lambda: f"dump({value!r}, {hint}) gave {wire!r}")
    return Info(bool(case["keys"]), ["keys: " + kind])


@st.composite
def order_cases(draw):
    return {
        "keys": draw(st.lists(st.text("ab_$Z0 é-", max_size=3), min_size=2, max_size=6, unique=True)),
        "mapping": draw(st.sampled_from(["Dict", "Mapping", "MutableMapping", "OrderedDict", "Remainder"])),
        "shape": draw(st.sampled_from(sorted(KEY_SHAPES))),
        "value": draw(st.sampled_from(["int", "str", "date"])),
    }


def run_order(case):
    """Mappings keep the order of their keys."""

    mapping, (wrap_hint, wrap) = case["mapping"], KEY_SHAPES[case["shape"]]
    value_type, value, wire_value = {"int": (int, 1, 1), "str": (str, "x", "x"), "date": (datetime.date, datetime.date(2020, 1, 2), "2020-01-02")}[case["value"]]
    if mapping == "Remainder":
        inner = dataclasses.make_dataclass("Rest", [("rest", te.Annotated[t.Dict[str, value_type], Remainder()])])
        made = inner(dict.fromkeys(case["keys"], value))
    else:
        inner = getattr(t, mapping)[str, value_type]
        made = (collections.OrderedDict if mapping == "OrderedDict" else dict)((k, value) for k in case["keys"])
    wire = wrap({k: wire_value for k in case["keys"]})
    hint = wrap_hint(inner)
    ok, got = attempt(dump, wrap(made), hint)
    check(ok and json.dumps(got) == json.dumps(wire), lambda: f"dump({wrap(made)!r}, {hint}) gave {got!r}, expected {wire!r}")
    ok, back = attempt(load, wire, hint)
    check(ok and back == wrap(made) and repr(back) == repr(wrap(made)), lambda: f"load({wire!r}, {hint}) gave {back!r}, expected {wrap(made)!r}")
    return Info(sorted(case["keys"]) != case["keys"], ["order: " + mapping])


PARTS = {
    "order": Part(order_cases, run_order, 300, 5000),
    "values": Part(cases, run, 2400, 100000, describe),
    "keys": Part(key_cases, run_keys, 300, 4000),
}
REGRESSIONS = []
