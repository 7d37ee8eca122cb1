from hypothesis import strategies as st

from pbt import codec, gen, spec as S
from pbt.util import Info, Part, Violation, attempt, check, describe, dump, expect_raw, load
from pbt.props import c04
from pbt.props.c05 import FOREIGN

ID = "C09"
TECHNIQUE = "property-based testing: first-match model of unions, optionals and literals over overlapping members"
RULE = (
    "A case is a union of overlapping members in some order (possibly optional, possibly inside of other types), an optional "
    "or a literal type, with a payload to load or a value to dump. Non-trivial: at least two members accept it, or it is "
    "none that the first member accepts."
)

MEMBERS = ["int", "float", "bool", "str", "bytes", "decimal", "date", "time", "datetime", "uuid", "path", "winpath", "enum", "intenum", "list", "set", "dict", "deque", "dc", "dc", "td", "conv", "nt"]
GROUPS = [
    ["int", "float", "bool", "intenum"],
    ["str", "bytes", "decimal", "date", "time", "datetime", "uuid", "path", "winpath", "enum", "conv"],
    ["list", "set", "deque"],
    ["dict", "dc", "dc", "dc", "td", "nt"],
    MEMBERS,
]
NAMES = ["a", "b", "c"]


@st.composite
def members(draw):
    n = draw(st.sampled_from([2, 2, 3, 3, 4, 4, 5, 8, 14]))
    out = []
    # Members may be told apart by a literal, like with the keys of discriminated unions.
    tagged = draw(st.integers(0, 2)) == 0
    # Members of the same group are likely to accept the same payloads.
    for k in draw(st.lists(st.sampled_from(draw(st.sampled_from(GROUPS))), min_size=n, max_size=n)):
        if k in S.SCALARS:
            m = [k]
        elif k == "enum":
            m = draw(gen.enums())
        elif k == "intenum":
            m = draw(gen.intenums())
        elif k == "conv":
            m = ["conv", None]
        elif k in ("list", "deque"):
            m = [k, draw(st.sampled_from([["int"], ["str"], ["float"], ["opt", ["int"]]]))]
        elif k == "set":
            m = [k, draw(st.sampled_from([["int"], ["str"]]))]
        elif k == "dict":
            m = ["dict", ["str"], draw(st.sampled_from([["int"], ["str"], ["float"], ["list", ["int"]]]))]
        else:
            fs = []
            names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True))
            for x in names:
                f = {"n": x, "t": draw(st.sampled_from([["int"], ["str"], ["float"], ["opt", ["int"]], ["list", ["int"]]]))}
                if k == "dc" and draw(st.integers(0, 2)) == 0:
                    f["d"] = [draw(gen.raws(f["t"]))]
                fs.append(f)
            if tagged:
                tag = {"n": "type", "t": ["literal", draw(st.sampled_from([["x"], ["y"], ["z"], ["x", "y"], ["y", "z"]]))]}
                if k == "dc" and draw(st.booleans()):
                    tag["d"] = [draw(gen.raws(tag["t"]))]
                fs.insert(draw(st.integers(0, len(fs))), tag)
            if k == "nt":
                fs = [f for f in fs if not S.is_opt(f["t"])] or [{"n": "a", "t": ["int"]}]
            fs = [f for f in fs if "d" not in f] + [f for f in fs if "d" in f]
            opts = {"extra": True} if draw(st.integers(0, 4)) == 0 else {}
            m = ["dc", None, fs, opts] if k == "dc" else ["td", None, fs, True] if k == "td" else ["nt", None, fs]
        # The converter tells the members apart by the names of their classes.
        if m[0] in ("dc", "td", "nt", "enum", "intenum", "conv") or all(x[0] != m[0] for x in out):
            out.append(m)
    if len(out) < 2:
        out.append(["uuid"] if out[0] != ["uuid"] else ["int"])
    return ["union", out]


@st.composite
def specs(draw):
    u = draw(members())
    shape = draw(st.integers(0, 7))
    if shape == 0:
        u = ["opt", u]
    elif shape == 1:
        u = ["list", u]
    elif shape == 2:
        u = ["dict", ["str"], ["opt", u]]
    elif shape == 3:
        u = ["dc", None, [{"n": "x", "t": u}, {"n": "y", "t": ["opt", u]}] if not any(m[0] not in S.SCALARS for m in u[1]) else [{"n": "x", "t": u}], {}]
    elif shape == 4:
        u = ["ann", u]
    return S.rename(u)


PAYLOAD = st.one_of(
    gen.INVALID,
    st.sampled_from([0, 1, 1.0, 2.5, True, "1", "a", "2020-01-02", "10:00:00", "YQ==", "A", "C:\\x", "6ba7b810-9dad-11d1-80b4-00c04fd430c8", None]),
    st.lists(st.one_of(st.integers(0, 3), st.sampled_from(["a", 1.0, 1.5, None])), max_size=3),
    st.dictionaries(st.sampled_from(NAMES + ["d", "type"]), st.one_of(st.integers(0, 3), st.sampled_from(["x", "y", 1.0, 1.5, None, [1]])), max_size=3),
)


def replace(draw, s, p):
    """Puts another payload in the place of the union."""

    k = s[0]
    if k in ("opt", "ann"):
        return replace(draw, s[1], p)
    if k == "list":
        return [*p, draw(PAYLOAD)]
    if k == "dict":
        return {**p, "k": draw(PAYLOAD)}
    if k == "dc":
        return {**p, "x": draw(PAYLOAD)}
    return draw(PAYLOAD)


@st.composite
def load_cases(draw):
    s = draw(specs())
    style = draw(gen.styles())
    p = gen.wire_of(s, style, draw(gen.raws(s)))
    how = draw(st.sampled_from(["valid", "mutated", "replaced", "replaced"]))
    if how == "mutated":
        p = draw(gen.mutated(p))
    elif how == "replaced" and p is not None:
        p = replace(draw, s, p)
    return {"spec": s, "style": style, "payload": p}


class Counting(S.World):
    """Counts how many members accept a payload."""

    accepting = 0

    def ref_load(self, s, p):
        if s[0] == "union":
            n = 0
            for m in s[1]:
                try:
                    super().ref_load(m, p)
                    n += 1
                except (S.Reject, S.Unknown):
                    pass
            self.accepting = max(self.accepting, n)
        return super().ref_load(s, p)


def run_load(case):
    s, p = case["spec"], case["payload"]
    with Counting(s, case["style"]) as w:
        try:
            expected = w.ref_load(s, p)
            verdict = "valid"
        except S.Reject:
            verdict = "reject"
        except S.Unknown:
            return Info(False, ["unknown"])
        ok, value = attempt(load, p, w.hint)
        if verdict == "reject":
            check(not ok, lambda: f"load() accepted the invalid payload {p!r} and returned {value!r}")
        else:
            check(ok, lambda: f"load() refused the valid payload {p!r}: {value}")
            expect_raw(w, s, expected, value, f"load() of {p!r}")
    return Info(w.accepting > 1 or verdict == "reject", [verdict, f"members that accept it: {w.accepting}"])


@st.composite
def dump_cases(draw):
    s = draw(specs())
    return {
        "spec": s,
        "style": draw(gen.styles()),
        "raw": draw(gen.raws(s)),
        "foreign": draw(st.one_of(st.none(), st.sampled_from(sorted(FOREIGN)))),
    }


def run_dump(case):
    s = case["spec"]
    with S.World(s, case["style"]) as w:
        def hook(t, v):
            return FOREIGN[case["foreign"]]() if t[0] == "union" and case["foreign"] is not None else v

        value = w.build_with(s, case["raw"], hook)
        try:
            expected = w.ref_dump(s, value)
            verdict = "valid"
        except S.Reject:
            verdict = "reject"
        except (S.Unknown, TypeError):
            return Info(False, ["unknown"])
        ok, wire = attempt(dump, value, w.hint)
        if verdict == "reject":
            check(not ok, lambda: f"dump() of {value!r}, which is not a value of the type, gave {wire!r}")
        else:
            check(ok, lambda: f"dump() refused {value!r}: {wire}")
            check(S.wire_matches(expected, wire), lambda: f"dump() of {value!r} gave {wire!r}, expected {expected!r}")
    return Info(True, [verdict])


@st.composite
def exact_cases(draw):
    inner = draw(st.one_of(gen.literals(), gen.literals(), st.sampled_from([["int"], ["str"], ["float"], ["list", ["int"]], ["any"], ["decimal"], ["date"]]).map(lambda x: ["opt", x])))
    shape = draw(st.integers(0, 6))
    if shape == 0:
        s = ["list", inner]
    elif shape == 1:
        s = ["dict", ["str"], inner]
    elif shape == 2:
        s = ["dc", None, [{"n": "x", "t": inner}], {}]
    elif shape == 3:
        s = ["ann", inner]
    elif shape == 4 and inner[0] == "literal" and None not in inner[1]:
        s = ["opt", inner]
    elif shape == 5:
        s = ["tuple", [inner, ["int"]]]
    else:
        s = inner
    s = S.rename(s)
    style = draw(gen.styles())
    p = gen.wire_of(s, style, draw(gen.raws(s)))
    place = draw(st.integers(0, 5))
    if draw(st.booleans()):
        p = draw(gen.mutated(p, 1, st.one_of(gen.INVALID, st.sampled_from([None, "a", "A", "yes", 2, 3, 2.0, True, False, 0, 1, "", "2", "None", "null", 10**20, 1e20]))))
    return {"spec": s, "style": style, "payload": p, "place": place}


def run_exact(case):
    s, p = case["spec"], case["payload"]
    with S.World(s, case["style"]) as w:
        try:
            expected = w.ref_load(s, p)
            verdict = "valid"
        except S.Reject:
            verdict = "reject"
        except S.Unknown:
            return Info(False, ["unknown"])
        ok, value = attempt(load, p, w.hint)
        if verdict == "reject":
            check(not ok, lambda: f"load() accepted the invalid payload {p!r} and returned {value!r}")
        else:
            check(ok, lambda: f"load() refused the valid payload {p!r}: {value}")
            expect_raw(w, s, expected, value, f"load() of {p!r}")
            wire, form = dump(value, w.hint), w.ref_dump(s, value)
            check(S.wire_matches(form, wire), lambda: f"dump() of {value!r} gave {wire!r}, expected {form!r}")
        paths = list(gen.places(p))
        path = paths[case["place"] % len(paths)]
        target = p
        for x in path:
            target = target[x]
        for x in gen.lookalikes(target):
            c04.verdict(w, s, gen.replaced(p, path, x))
    return Info(True, [verdict] + S.kinds(s))


PARTS = {
    "load": Part(load_cases, run_load, 1600, 70000, describe),
    "dump": Part(dump_cases, run_dump, 1000, 40000, describe),
    "exact": Part(exact_cases, run_exact, 1000, 40000, describe),
}
REGRESSIONS = []
