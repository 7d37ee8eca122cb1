import itertools

from hypothesis import strategies as st

from databind.core import DeserializeAs
from databind.json import get_object_mapper

from pbt import gen, spec as S
from pbt.util import Info, Part, attempt, check, describe, expect_raw

ID = "C22"
TECHNIQUE = "property-based testing: generated pairs of types and marked places against the reference decoder and encoder of the other type"
RULE = (
    "A class (abstract, a base of the other type or unrelated to it) is marked to be deserialized as a generated structured "
    "type in some of the places where it is used: by annotations, or for the class in the settings of the mapper. What is "
    "loaded from valid, mutated and random payloads is compared with a reference that knows only the other type in marked "
    "places and only the class itself in the unmarked ones; values are dumped accordingly, and values that are not of the "
    "other type are refused. Non-trivial: the reference has a verdict on a payload that is an object or contains one."
)
ASSUMPTIONS = [
    "The marked type is one that has no converter of its own (see the known finding), no flattened field and no union."
]


@st.composite
def targets(draw, counter):
    g = gen.Gen(depth=draw(st.sampled_from([1, 1, 2])))
    depth = draw(st.sampled_from([1, 1, 2]))
    kind = draw(st.sampled_from(["dc"] * 5 + ["gdc", "td", "nt"]))
    if kind == "gdc":
        return S.rename(draw(g.generic(1)), counter)
    if kind == "td":
        return S.rename(["td", None, draw(g.fields(depth - 1, owner=False, defaults=False)), True], counter)
    if kind == "nt":
        fs = draw(g.fields(depth - 1, owner=False, defaults=False, optional=False))
        return S.rename(["nt", None, fs or [{"n": "a", "t": ["int"]}]], counter)
    b = draw(g.dataclass(depth))
    if draw(st.booleans()):
        b[3] = {**b[3], "extra": draw(st.booleans())}
    return S.rename(b, counter)


@st.composite
def specs(draw):
    counter = itertools.count()
    b = draw(targets(counter))
    hows = ["abstract", "dataclass", "dataclass"] + (["base"] * 3 if b[0] == "dc" and not b[3].get("slots") else [])
    how = draw(st.sampled_from(hows))
    local = draw(st.integers(0, 4)) == 0
    a = None
    if how != "abstract":
        opts = {k: v for k, v in (b[3].items() if b[0] == "dc" else ()) if k == "frozen"}
        if draw(st.integers(0, 2)) == 0:
            opts["extra"] = draw(st.booleans())
        if how == "base":
            fs = list(itertools.takewhile(lambda f: all(x[0] != "ref" for x in S.walk(f["t"])), b[2]))
            fs = fs[: draw(st.integers(0, len(fs)))]
        else:
            # Some names and keys are the same as the ones of the other type.
            fs = draw(gen.Gen(depth=0).fields(0, owner=False))
            fs = S.rename(["dc", None, fs, {}], counter)[2]
        a = ["dc", "A", fs, opts]

    def marked(b):
        extra = draw(st.sampled_from([None, None, None, True, False])) if not local else None
        return ["das", ("local:" if local else "") + how, "A", b, a, extra]

    s = marked(b)
    w = draw(st.sampled_from(["root", "root", "ann", "list", "opt", "dict", "tuple", "class", "class", "class"]))
    others = [b] + ([a] if a and not local else [])
    if w == "ann":
        return ["ann", s]
    if w in ("list", "opt"):
        return [w, s]
    if w == "dict":
        return ["dict", ["str"], s]
    if w == "tuple":
        return ["tuple", [s, *draw(st.lists(st.sampled_from(others), max_size=2))]]
    if w == "class":
        items = [s, *draw(st.lists(st.sampled_from(others), max_size=2))]
        if not local and how != "base" and draw(st.booleans()):
            items.append(marked(draw(targets(counter))))
        items = draw(st.permutations(items))
        names = draw(st.lists(st.sampled_from(gen.IDENTS), min_size=len(items), max_size=len(items), unique=True))
        fs = []
        for n, x in zip(names, items):
            fs.append({"n": n, "t": draw(st.sampled_from([x, x, ["opt", x], ["list", x], ["dict", ["str"], x]]))})
            if b[0] != "gdc" and a and draw(st.integers(0, 2)) == 0:
                # A mark on a collection is not one on its items.
                c = draw(st.sampled_from([["list", x], ["dict", ["str"], x], ["tuple", [x]], ["list", ["list", x]]]))
                fs[-1]["t"] = ["ann", c, f"DeserializeAs({draw(st.sampled_from([a[1], b[1]]))})"]
            if draw(st.integers(0, 3)) == 0:
                fs[-1]["al"] = ["key-" + n]
        return ["dc", "H", fs, {"extra": True} if draw(st.integers(0, 7)) == 0 else {}]
    return s


@st.composite
def cases(draw):
    s = draw(specs())
    style = {"future": False, "modern": draw(st.booleans())}
    wrong = draw(gen.raws(s[4])) if s[0] == "das" and s[4] else None
    return {"spec": s, "style": style, "payload": draw(gen.payloads(s, style, valid=3, mutate=5, random=1))[1], "wrong": wrong}


def run(case):
    s, p = case["spec"], case["payload"]
    with S.World(s, case["style"]) as w:
        mapper = get_object_mapper()
        for name, inner in w.marks:
            mapper.settings.add_local(w.ns[name], DeserializeAs(eval(inner, w.ns)))
        try:
            expected = ("value", w.ref_load(s, p))
        except S.Reject:
            expected = ("reject", None)
        except S.Unknown:
            expected = ("unknown", None)
        ok, value = attempt(mapper.deserialize, p, w.hint)
        if expected[0] == "reject":
            check(not ok, lambda: f"load() accepted the invalid payload {p!r} and returned {value!r}")
        elif expected[0] == "value":
            check(ok, lambda: f"load() refused the valid payload {p!r}: {value}")
            expect_raw(w, s, expected[1], value, f"load() of {p!r}")
        # Named tuples are not handled by a schema, and so can only be loaded instead of another type.
        if ok and not any(x[0] == "das" and x[3][0] == "nt" for x in S.walk(s)):
            try:
                wire = w.ref_dump(s, value)
            except (S.Reject, S.Unknown):
                # E.g. a remainder that collides with other keys
                wire = None
            if wire is not None:
                ok2, got = attempt(mapper.serialize, value, w.hint)
                check(ok2 and S.wire_matches(wire, got), lambda: f"dump({value!r}) gave {got!r}, expected {wire!r}")
        if s[0] == "das" and not (s[3][0] == "td"):
            # Just a value of the marked class
            v = w.build(s[4], case["wrong"]) if s[4] else w.ns[s[2]]()
            ok3, got = attempt(mapper.serialize, v, w.hint)
            check(not ok3, lambda: f"dump({v!r}) gave {got!r}, although it is not a value of the other type")
        labels = [expected[0], next(x[1] for x in S.walk(s) if x[0] == "das")]
    return Info(expected[0] != "unknown" and ("{" in repr(p)), labels)


PARTS = {"marked": Part(cases, run, 2500, 100000, describe)}
REGRESSIONS = []
