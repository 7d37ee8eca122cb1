import fractions

from hypothesis import strategies as st

from pbt import codec, gen, spec as S
from pbt.util import Info, Part, Violation, attempt, check, describe, expect_raw, load

ID = "C04"
TECHNIQUE = "property-based testing: acceptance and result of load against an independent reference decoder"
RULE = (
    "A case is a generated type (rendered as a Python module with its classes) together with a JSON payload: one of a value "
    "of the type, one with random mutations, or an unrelated one; or a small type and a valid payload of which every part is in "
    "turn replaced by a fixed list of values and by values that look alike. Non-trivial: the reference decoder has a verdict, "
    "and the payload is not simply valid or the type has at least two nodes; or it has a verdict about more than 20 payloads."
)
ASSUMPTIONS = [
    "The reference decoder has no verdict for date and time text other than the extended ISO 8601 form, for literals that "
    "only equal a listed value and for object forms of durations; for these, only conformance of the result is checked (C03)."
]


@st.composite
def cases(draw):
    g = gen.Gen(depth=draw(st.sampled_from([0, 1, 1, 2, 2, 3])))
    s = draw(g.spec())
    style = draw(gen.styles())
    how, payload = draw(gen.payloads(s, style))
    return {"spec": s, "payload": payload, "style": style, "how": how}


def run(case):
    s, p = case["spec"], case["payload"]
    with S.World(s, case["style"]) as w:
        try:
            expected = ("value", w.ref_load(s, p))
        except S.Reject:
            expected = ("reject", None)
        except S.Unknown:
            expected = ("unknown", None)
        ok, value = attempt(load, p, w.hint)
        if expected[0] == "reject":
            check(not ok, lambda: f"load() accepted the invalid payload {p!r} and returned {value!r}")
        elif expected[0] == "value":
            check(ok, lambda: f"load() refused the valid payload {p!r}: {value}")
            expect_raw(w, s, expected[1], value, f"load() of {p!r}")
    return Info(
        expected[0] != "unknown" and (case["how"] != "valid" or S.size(s) > 1), [f"{case['how']}:{expected[0]}"] + S.kinds(s)
    )


@st.composite
def leaf_cases(draw):
    g = gen.Gen(depth=draw(st.sampled_from([0, 0, 0, 1])))
    s = draw(st.one_of(g.spec(), g.spec(), gen.literals()))
    shape = draw(st.integers(0, 7))
    if shape == 0:
        s = ["list", s]
    elif shape == 1:
        s = ["dict", ["str"], s]
    elif shape == 2:
        s = ["dc", None, [{"n": "x", "t": s}], {}]
    elif shape == 3 and not S.is_opt(s) and s[0] not in ("any", "object") and not (s[0] == "literal" and None in s[1]):
        s = ["opt", s]
    elif shape == 4 and s[0] in ("str", "bytes", "decimal", "date", "time", "datetime", "uuid", "path", "winpath", "enum"):
        s = ["dict", s, ["int"]]
    s = S.rename(s)
    style = draw(gen.styles())
    return {"spec": s, "style": style, "payload": gen.wire_of(s, style, draw(gen.raws(s)))}


class Duck:
    """Has the methods of mappings, sequences, numbers and text, but is not one of them."""

    def items(self):
        return [("a", 1)]

    def keys(self):
        return ["a"]

    def values(self):
        return [1]

    def get(self, key, default=None):
        return 1

    def __getitem__(self, key):
        if key in ("a", 0):
            return 1
        raise LookupError(key)

    def __int__(self):
        return 1

    __index__ = __bool__ = __int__

    def __float__(self):
        return 1.0

    def __str__(self):
        return "1"

    def is_integer(self):
        return True

    def lower(self):
        return "true"


def resembling():
    return [Duck(), iter([1]), (x for x in "a"), object(), 1j, fractions.Fraction(1), Duck, len, NotImplemented]


def run_leaf(case):
    s, p = case["spec"], case["payload"]
    verdicts = {"value": 0, "reject": 0, "unknown": 0}
    with S.World(s, case["style"]) as w:
        if not any(x[0] in ("any", "object", "literal", "conv") for x in S.walk(s)):
            # What only resembles data of some kind, in every place.
            for path in list(gen.places(p))[:6]:
                for x in resembling():
                    q = gen.replaced(p, path, x)
                    ok, value = attempt(load, q, w.hint)
                    check(not ok, lambda: f"load() accepted {q!r} and returned {value!r}")
        if not any(x[0] in ("any", "object", "bytes", "literal", "conv") for x in S.walk(s)):
            for q in (b"", b"ab", bytearray(), bytearray(b"ab"), memoryview(b"ab")):
                ok, value = attempt(load, q, w.hint)
                check(not ok, lambda: f"load() accepted binary data {q!r} and returned {value!r}")
        for path in list(gen.places(p))[:6]:
            target = p
            for x in path:
                target = target[x]
            near = gen.lookalikes(target)
            tries = [gen.replaced(p, path, x) for x in near + (gen.EVERYTHING if len(path) < 2 else [])]
            if path and type(p) is dict and isinstance(path[-1], str) and len(path) == 1:
                tries += [{(b if a == path[0] else a): x for a, x in p.items()} for b in gen.lookalikes(path[0]) if type(b) is str]
            for q in tries:
                verdicts[verdict(w, s, q)] += 1
    return Info(verdicts["value"] + verdicts["reject"] > 20, [f"{v} payloads: {len(str(n))} digits" for v, n in verdicts.items()] + S.kinds(s))


def verdict(w, s, p):
    try:
        expected = w.ref_load(s, p)
    except S.Unknown:
        attempt(load, p, w.hint)
        return "unknown"
    except S.Reject:
        ok, value = attempt(load, p, w.hint)
        check(not ok, lambda: f"load() accepted the invalid payload {p!r} and returned {value!r}")
        return "reject"
    ok, value = attempt(load, p, w.hint)
    check(ok, lambda: f"load() refused the valid payload {p!r}: {value}")
    expect_raw(w, s, expected, value, f"load() of {p!r}")
    return "value"


PARTS = {
    "payloads": Part(cases, run, 3200, 150000, describe),
    "alike": Part(leaf_cases, run_leaf, 800, 30000, describe),
}
REGRESSIONS = []
