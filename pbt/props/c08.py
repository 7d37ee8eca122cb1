import dataclasses
import typing as t

import typing_extensions as te
from hypothesis import strategies as st

from databind.core import Alias, Flattened, Remainder, Union

from pbt import codec, gen, spec as S
from pbt.util import Info, Part, Violation, attempt, check, describe, dump, expect_raw, load

ID = "C08"
TECHNIQUE = "property-based testing: model of the wire forms of discriminated unions over generated unions and payloads"
RULE = (
    "A case is a generated union (style, keys, ids, members; declared on classes or by annotation; possibly recursive; "
    "possibly inside of other types) and a value, or a payload made from one by changing the discriminator, the nesting or "
    "the content. A third part has discriminators that collide with other keys, which is refused. Non-trivial: the union has at least two members."
)

SMALL = gen.Gen(depth=1, unions=False)


@st.composite
def unions(draw, depth=1):
    style = draw(st.sampled_from(["nested", "flat", "keyed"]))
    how = draw(st.sampled_from(["class", "annotated"]))
    dkey = draw(st.sampled_from(["type", "type", "kind", "$type", "a b", "name", "ü"]))
    n = draw(st.integers(1 if how == "class" else 2, 4))
    pool = ["a", "b", "c", "Foo", "foo", "my-type", "x.y", "ü", "0", "type", "kind", "None", " "]
    ids = draw(st.lists(st.sampled_from(pool), min_size=n, max_size=n, unique=True))
    # In the nested style, an id can not double as the key of the discriminator.
    ids = [i if i != dkey else i + "2" for i in ids]
    if len(set(ids)) != len(ids):
        ids = [f"{i}{k}" for k, i in enumerate(ids)]
    nkey = draw(st.sampled_from([None, None, "spec", "with", "a"])) if style == "nested" else None
    members, seen = [], set()
    shared = None
    for i in ids:
        scalar = draw(st.sampled_from(["int", "str", "float", "bool", "uuid", "date"]))
        if how == "annotated" and style != "flat" and draw(st.integers(0, 2)) == 0 and scalar not in seen:
            seen.add(scalar)
            members.append([i, [scalar]])
            continue
        fs = draw(SMALL.fields(1, owner=False, taken=(dkey,), names=[x for x in gen.IDENTS if x != dkey], max_size=3))
        fs = [{**f, "al": [a for a in f["al"] if a != dkey] or ["alt-" + f["n"]]} if f.get("al") else f for f in fs]
        if shared is not None and draw(st.integers(0, 2)) == 0:
            # Members that differ in nothing but their id.
            fs = shared
        shared = fs
        if draw(st.integers(0, 3)) == 0 and "sub" not in {k for f in fs for k in [f["n"], *S.read_keys(f)]} and dkey != "sub":
            t = ["list", ["uref"]] if draw(st.booleans()) else ["opt", ["uref"]]
            fs = [{"n": "sub", "t": t}] + fs
        opts = {}
        if draw(st.integers(0, 5)) == 0:
            opts["extra"] = draw(st.booleans())
        members.append([i, ["dc", None, fs, opts]])
    return ["dunion", None, style, dkey, nkey, members, how]


@st.composite
def specs(draw):
    u = draw(unions())
    shape = draw(st.integers(0, 9))
    if shape == 0:
        return S.rename(["list", u])
    if shape == 1:
        return S.rename(["dict", ["str"], u])
    if shape == 2:
        return S.rename(["opt", u])
    if shape == 3:
        return S.rename(["dc", None, [{"n": "x", "t": u}, {"n": "y", "t": ["int"], "d": [3]}], {}])
    return S.rename(u)


@st.composite
def value_cases(draw):
    s = draw(specs())
    return {"spec": s, "raw": draw(gen.raws(s)), "style": draw(gen.styles()), "stranger": draw(st.integers(0, 40))}


def run_value(case):
    s = case["spec"]
    with S.World(s, case["style"]) as w:
        raw = w.normal(s, case["raw"])
        value = w.build(s, case["raw"])
        expected = w.ref_dump(s, value)
        wire = dump(value, w.hint)
        check(S.wire_matches(expected, wire), lambda: f"dump() gave {wire!r}, expected {expected!r}")
        expect_raw(w, s, raw, load(wire, w.hint), f"load(dump(v)) through {wire!r}")
        # Values of other types have no place in the union, even if they derive from a member.
        u = next(x for x in S.walk(s) if x[0] == "dunion")
        hint = w.ns[u[1]]
        strangers = [object(), None, {}, [], b"x", 1j]
        if u[6] == "class":
            strangers += [hint(), hint]
        classes = [m for _, m in u[5] if m[0] == "dc"]
        if classes:
            c = w.cls(classes[0])
            strangers.append(c)
            sub = type("Sub", (c,), {})
            strangers.append(object.__new__(sub))
        x = strangers[case["stranger"] % len(strangers)]
        ok, wire = attempt(dump, x, hint)
        check(not ok, lambda: f"dump() of {x!r}, which is no member of the union, gave {wire!r}")
    return Info(len(u[5]) > 1, [u[2], u[6], f"members:{len(u[5])}"])


@st.composite
def payload_cases(draw):
    s = draw(specs())
    while s[0] != "dunion":
        s = next(x for x in S.children(s) if any(y[0] == "dunion" for y in S.walk(x)))
    style = draw(gen.styles())
    _, _, how, dkey, nkey, members, _ = s
    table = dict(map(tuple, members))
    mid = draw(st.sampled_from(list(table)))
    other = draw(st.sampled_from(list(table)))
    w = S.World(s, style)
    with w:
        def content(m):
            return S.wire_text(w.ref_dump(m, w.build(m, draw(gen.raws(m, w.defs)))))

        inner = content(table[mid])
        wrong = draw(st.one_of(gen.INVALID, st.sampled_from([mid.upper(), mid.lower(), mid + " ", " " + mid, mid[:-1], "C1", "U0", ""])))
        change = draw(st.sampled_from(["none", "id", "other id", "missing", "content", "key", "surplus", "shape", "other content", "member as is"]))
        if how == "keyed":
            p = {mid: inner}
            if change == "id":
                p = {str(wrong)[:50]: inner}
            elif change == "other id":
                p = {other: inner}
            elif change == "missing":
                p = {}
            elif change == "content":
                p = {mid: draw(gen.mutated(inner))}
            elif change == "key":
                p = {dkey: mid, (nkey or mid): inner}
            elif change == "surplus":
                p = {mid: inner, draw(st.sampled_from(["x", "a", "type", other])): inner}
            elif change == "other content":
                p = {mid: content(table[other])}
        else:
            key = nkey or mid
            body = inner if how == "flat" else {key: inner}
            p = {dkey: mid, **body}
            if change == "id":
                p[dkey] = wrong
            elif change == "other id":
                p[dkey] = other
            elif change == "missing":
                del p[dkey]
            elif change == "content":
                p = draw(gen.mutated(p))
            elif change == "key" and how == "nested":
                p = {dkey: mid, draw(st.sampled_from(["x", "value", "type2", other, mid + "2"])): inner}
            elif change == "key":
                p = {draw(st.sampled_from(["type", "kind", "Type", dkey + " "])): mid, **body}
            elif change == "surplus":
                p[draw(st.sampled_from(["x", "zzz", "0"]))] = 1
            elif change == "other content":
                c = content(table[other])
                p = {dkey: mid, **(c if how == "flat" else {key: c})}
            if draw(st.booleans()) and isinstance(p, dict):
                p = dict(reversed(list(p.items())))
        if change == "shape":
            p = draw(gen.INVALID)
        elif change == "member as is":
            p = inner
    return {"spec": s, "payload": p, "style": style, "change": change}


def run_payload(case):
    s, p = case["spec"], case["payload"]
    with S.World(s, case["style"]) as w:
        try:
            expected = w.ref_load(s, p)
            verdict = "valid"
        except S.Reject:
            verdict = "reject"
        except S.Unknown:
            verdict = "unknown"
        ok, value = attempt(load, p, w.hint)
        if verdict == "reject":
            check(not ok, lambda: f"load() accepted the invalid payload {p!r} and returned {value!r}")
        elif verdict == "valid":
            check(ok, lambda: f"load() refused the valid payload {p!r}: {value}")
            expect_raw(w, s, expected, value, f"load() of {p!r}")
    return Info(len(s[5]) > 1, [f"{s[2]}:{case['change']}:{verdict}", s[6]])


# --- discriminators that collide with other keys ------------------------------------------------------------------------


@st.composite
def collision_cases(draw):
    style = draw(st.sampled_from(["flat", "flat", "nested", "keyed"]))
    keys = ["type", "kind", "a", "b"]
    return {
        "style": style,
        "dkey": draw(st.sampled_from(keys)),
        "nkey": draw(st.sampled_from([None, *keys])) if style == "nested" else None,
        "ids": draw(st.lists(st.sampled_from(["a", "b", "type", "x"]), min_size=2, max_size=2, unique=True)),
        "member": draw(st.sampled_from(["field", "alias", "remainder", "typed dict", "flattened", "scalar"])),
        "key": draw(st.sampled_from(keys)),
        "value": draw(st.sampled_from(["", "x", "a", "b", "type", None])),
    }


def run_collision(case):
    style, dkey, nkey, key, v = case["style"], case["dkey"], case["nkey"], case["key"], case["value"]
    Text = t.Optional[str]
    kind = case["member"]
    if kind == "scalar" and style == "flat":
        kind = "field"
    if kind == "field":
        cls = dataclasses.make_dataclass("Member", [(key, Text)])
        value = cls(v)
    elif kind == "alias":
        cls = dataclasses.make_dataclass("Member", [("other", te.Annotated[Text, Alias(key)])])
        value = cls(v)
    elif kind == "remainder":
        cls = dataclasses.make_dataclass("Member", [("rest", te.Annotated[t.Dict[str, Text], Remainder()])])
        value = cls({key: v})
    elif kind == "flattened":
        inner = dataclasses.make_dataclass("Inner", [(key, Text)])
        cls = dataclasses.make_dataclass("Member", [("inner", te.Annotated[inner, Flattened()])])
        value = cls(inner(v))
    elif kind == "typed dict":
        # Values of typed dicts do not tell their type, so it is the member of a member.
        cls = dataclasses.make_dataclass("Member", [("inner", te.Annotated[t.TypedDict("Inner", {key: Text}), Flattened()])])
        value = cls({key: v})
    else:
        cls, value, key, v = str, v or "", None, v or ""
    other = dataclasses.make_dataclass("Other", [])
    mid, oid = case["ids"]
    hint = te.Annotated[t.Union[cls, other], Union({mid: cls, oid: other}, style=style, discriminator_key=dkey, nesting_key=nkey)]
    ok, wire = attempt(dump, value, hint)
    collides = style == "flat" and key == dkey or style == "nested" and (nkey or mid) == dkey
    what = f"{value!r} in the style {style} (discriminator: {dkey!r}, nesting: {nkey!r}, id: {mid!r})"
    if collides:
        # If they agree, it depends on the member whether it can be read again.
        if v != mid:
            check(not ok, lambda: f"dump() of {what} gave {wire!r}, which lacks one of the two")
        elif ok:
            check(wire.get(dkey) == mid, lambda: f"dump() of {what} gave {wire!r}")
        return Info(True, ["collision"])
    check(ok, lambda: f"dump() of {what} failed: {wire}")
    ok, got = attempt(load, wire, hint)
    check(ok and got == value and type(got) is type(value), lambda: f"dump() of {what} gave {wire!r}, which is loaded as {got!r}")
    return Info(True, ["no collision"])


NULLABLE = {
    "optional": (t.Optional[str], [None, "x", ""], [1, []]),
    "any": (t.Any, [None, 0, "", [], {}, "x"], []),
    "list": (t.List[t.Optional[int]], [[], [None], [0]], [None, [""]]),
    "dict": (t.Dict[str, t.Optional[int]], [{}, {"a": None}, {"type": 0}], [None, {"a": ""}]),
    "int": (int, [0, -1], [None, ""]),
    "bool": (bool, [False, True], [None, 0]),
}


@st.composite
def nullable_cases(draw):
    return {
        "member": draw(st.sampled_from(sorted(NULLABLE))),
        "style": draw(st.sampled_from(["nested", "nested", "keyed"])),
        "dkey": draw(st.sampled_from(["type", "kind"])),
        "nkey": draw(st.sampled_from([None, "value", "n", "a"])),
        "id": draw(st.sampled_from(["n", "null", "a"])),
        "content": draw(st.integers(0, 8)),
    }


def run_nullable(case):
    """Contents that are false or null."""

    hint, good, bad = NULLABLE[case["member"]]
    mid = case["id"]
    u = te.Annotated[t.Union[bytes, hint], Union({"other": bytes, mid: hint}, style=case["style"], discriminator_key=case["dkey"], nesting_key=case["nkey"])]
    contents = [(x, True) for x in good] + [(x, False) for x in bad]
    content, accepted = contents[case["content"] % len(contents)]
    payload = {mid: content} if case["style"] == "keyed" else {case["dkey"]: mid, case["nkey"] or mid: content}
    ok, got = attempt(load, payload, u)
    check(ok == accepted and (not ok or repr(got) == repr(content)), lambda: f"load({payload!r}, {u}) gave {got!r}")
    return Info(not content, ["accepted" if accepted else "refused"])


PARTS = {
    "contents": Part(nullable_cases, run_nullable, 300, 5000),
    "collisions": Part(collision_cases, run_collision, 500, 10000),
    "values": Part(value_cases, run_value, 1200, 60000, describe),
    "payloads": Part(payload_cases, run_payload, 2000, 90000, describe),
}
REGRESSIONS = []
