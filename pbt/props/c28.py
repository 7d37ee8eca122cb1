import copy
import datetime
import decimal

from hypothesis import strategies as st

from databind.core import DateFormat, ExtraKeys, Precision, SerializeDefaults, Strict
from databind.json import get_object_mapper

from pbt import codec, gen, spec as S
from pbt.props.c05 import FOREIGN
from pbt.util import Info, Part, attempt, check

ID = "C28"
TECHNIQUE = "property-based testing: metamorphic relation between different spellings of the same types"
RULE = (
    "A case is a generated type that is written down in two ways (typing or builtin generics, Optional or unions, annotations without meaning, "
    "new types, names and strings for types, postponed evaluation), some payloads, and a value with foreign values in some places, and settings for types. "
    "Both have to accept the same payloads and values with equal results, and refuse the others at the same place. "
    "Non-trivial: the two spellings differ, and the type has at least two nodes."
)


SETTINGS = {
    "strict int": (int, lambda: Strict(False)),
    "strict str": (str, lambda: Strict(False)),
    "strict float": (float, lambda: Strict(False)),
    "strict bool": (bool, lambda: Strict(False)),
    "strict decimal": (decimal.Decimal, lambda: Strict(False)),
    "precision": (decimal.Decimal, lambda: Precision(prec=3)),
    "date": (datetime.date, lambda: DateFormat("%d.%m.%Y")),
    "extra": (None, lambda: ExtraKeys()),
    "defaults": (None, lambda: SerializeDefaults(False)),
}


def make_mapper(case, w):
    """A mapper with settings, of which the local ones are for the class itself or for the structures."""

    mapper = get_object_mapper()
    for name, where in case.get("settings", ()):
        cls, make = SETTINGS[name]
        if where == "global":
            mapper.settings.add_global(make())
        elif cls is not None:
            mapper.settings.add_local(cls, make())
        else:
            for name in {x[1] for x in S.walk(case["spec"]) if x[0] in S.STRUCTS}:
                mapper.settings.add_local(w.ns[name], make())
    return mapper


@st.composite
def cases(draw):
    g = gen.Gen(depth=draw(st.sampled_from([1, 2, 2, 3])))
    s = draw(g.spec())
    styles = [draw(gen.styles()), {**draw(gen.styles()), "respell": draw(st.integers(0, 2**32))}]
    if draw(st.integers(0, 4)) == 0:
        styles[0]["respell"] = draw(st.integers(0, 2**32))
    raw = draw(gen.raws(s))
    wire = gen.wire_of(s, {}, raw)
    payloads = [wire, *[draw(gen.mutated(wire, 2)) for _ in range(3)]]
    swaps = st.lists(st.tuples(st.integers(0, 12), st.sampled_from(sorted(FOREIGN))), min_size=1, max_size=2)
    settings = draw(st.lists(st.tuples(st.sampled_from(sorted(SETTINGS)), st.sampled_from(["local", "local", "global"])), max_size=4))
    return {"settings": settings, "spec": s, "styles": styles, "raw": raw, "payloads": payloads, "swaps": [[], draw(swaps), draw(swaps)]}


def place(exc):
    """Where the error is, without the steps into the alternatives of a type."""

    return [repr(c.key) for c in exc.context.iter_hierarchy_up() if c.key is not None]


def run(case):
    s = case["spec"]
    outcomes = []
    failures = 0
    for style in case["styles"]:
        out = []
        with S.World(s, style) as w:
            mapper = make_mapper(case, w)
            for p in case["payloads"]:
                ok, v = attempt(mapper.deserialize, copy.deepcopy(p), w.hint)
                try:
                    out.append((f"load({p!r})", codec.canon(w.abstract(s, v)) if ok else f"refused at {place(v)}"))
                except S.Mismatch as exc:
                    out.append((f"load({p!r})", f"something else: {exc}"))
                failures += not ok
            for swaps in case["swaps"]:
                swaps = dict(map(tuple, swaps))
                counter = iter(range(10**9))
                try:
                    value = w.build_with(s, case["raw"], lambda s, v: FOREIGN[swaps[n]]() if (n := next(counter)) in swaps else v)
                    ok, v = attempt(mapper.serialize, value, w.hint)
                except TypeError as exc:
                    if "unhashable" in str(exc):
                        continue
                    raise
                try:
                    out.append((f"dump() of {case['raw']!r} with {swaps}", codec.canon(v) if ok else f"refused at {place(v) if 0 else ''}"))
                except TypeError as exc:
                    out.append((f"dump() of {case['raw']!r} with {swaps}", f"something else: {exc}"))
                failures += not ok
            outcomes.append((w.source[600:], out))
    (one, a), (two, b) = outcomes
    for (what, x), (_, y) in zip(a, b):
        check(x == y, lambda: f"{what}: {x}\nbut in the other spelling {y}\n{one}\n---\n{two}")
    return Info(one != two and S.size(s) > 1, S.kinds(s) + ["failures" if failures else "no failures"])


PARTS = {"spellings": Part(cases, run, 1600, 80000, lambda case: case["styles"])}
REGRESSIONS = []
