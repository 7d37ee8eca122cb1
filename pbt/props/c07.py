import dataclasses
import typing as t

from hypothesis import strategies as st

from typeapi import TypeHint

from databind.core import Alias, ExtraKeys, Flattened, convert_to_schema, get_fields_expanded

from pbt import gen, spec as S
from pbt.util import Info, Part, Violation, attempt, check, describe, dump, expect_raw, load

ID = "C07"
TECHNIQUE = "property-based testing: model of flattening and remainders over generated class nestings and payloads"
RULE = (
    "A case is a generated dataclass or typed dict with members that are flattened (at several levels), possibly a remainder field, and "
    "either a value or a payload with keys missing, renamed and added. All keys of a case are distinct. In a third part, names of fields "
    "collide with those of members flattened into them, which is refused. Non-trivial: there "
    "is a flattened or a remainder field, and the payload or value is not empty."
)
ASSUMPTIONS = [
    "Flattened members with colliding aliases, optional flattened members and flattened mappings are outside of the domain."
]

LEAF = st.sampled_from([["int"], ["str"], ["bool"], ["decimal"], ["opt", ["int"]], ["list", ["str"]], ["dict", ["str"], ["int"]], ["any"], ["tuple", [["int"], ["str"]]]])


class Keys:
    """Hands out field names and keys such that none is used twice in the case."""

    def __init__(self, draw):
        self.names = draw(st.permutations(gen.IDENTS))
        self.keys = draw(st.permutations(gen.ALIASES))


@st.composite
def structs(draw, keys, depth, remainder, root):
    kind = draw(st.sampled_from(["dc"] * 5 + ([] if remainder else ["td"]) if root else ["dc", "dc", "dc", "gdc", "td", "td"]))
    fs = []
    for _ in range(draw(st.integers(0 if remainder else 1, 3))):
        if not keys.names:
            break
        f = {"n": keys.names.pop()}
        if depth > 0 and draw(st.integers(0, 1)) == 0:
            f["t"] = draw(structs(keys, depth - 1, False, False))
            f["flat"] = True
            if kind == "td" and draw(st.integers(0, 2)) == 0:
                # It is found in the parent all the same.
                f["d"] = [draw(gen.raws(S.rename(f["t"])))]
        else:
            f["t"] = draw(LEAF)
            if draw(st.booleans()):
                f["al"] = [keys.keys.pop() for _ in range(draw(st.integers(1, 2))) if keys.keys]
                if not f["al"]:
                    del f["al"]
            if (kind == "dc" or kind == "td" and S.is_plain_default(f["t"])) and draw(st.integers(0, 2)) == 0:
                f["d"] = [draw(gen.raws(f["t"]))]
            if draw(st.integers(0, 5)) == 0:
                # Markers that say that the field is nothing special.
                f["meta"] = draw(st.sampled_from([["Flattened(False)"], ["Remainder(False)"], ["Flattened(False)", "Remainder(False)"]]))
        fs.append(f)
    if remainder:
        vt = draw(st.sampled_from([["any"], ["int"], ["list", ["int"]], ["opt", ["str"]]]))
        mt = draw(st.sampled_from(["dict", "dict", "mapping", "odict"]))
        f = {"n": keys.names.pop() if keys.names else "rest", "t": [mt, ["str"], vt], "rem": True}
        if draw(st.booleans()):
            f["d"] = [[]]
        fs.insert(draw(st.integers(0, len(fs))), f)
    fs = [f for f in fs if "d" not in f] + [f for f in fs if "d" in f]
    if kind == "td":
        return ["td", None, fs, True]
    if kind == "gdc":
        fs = [f for f in fs if not f.get("flat")]
        arg = ["int"]
        fs.append({"n": keys.names.pop() if keys.names else "x2", "t": ["tv", 0]})
        return ["gdc", None, fs, [arg]]
    opts = {}
    if root and draw(st.integers(0, 3)) == 0:
        opts["extra"] = draw(st.booleans())
    return ["dc", None, fs, opts]


def leaves(fs):
    for f in fs:
        if f.get("flat"):
            yield from leaves(S.struct_fields(f["t"]))
        elif not f.get("rem"):
            yield f


@st.composite
def specs(draw):
    keys = Keys(draw)
    rem = draw(st.booleans())
    return S.rename(draw(structs(keys, draw(st.sampled_from([1, 2, 2, 3])), rem, True)))


@st.composite
def value_cases(draw):
    s = draw(specs())
    raw = draw(gen.raws(s))
    if draw(st.integers(0, 4)) == 0:
        # A remainder that collides with another field can not be represented.
        for f in s[2]:
            if f.get("rem"):
                known = [S.wire_key(g) for g in leaves(s[2])]
                if known:
                    raw[f["n"]] = [[draw(st.sampled_from(known)), draw(gen.raws(f["t"][2]))]]
    return {"spec": s, "raw": raw, "style": draw(gen.styles())}


def run_value(case):
    s = case["spec"]
    with S.World(s, case["style"]) as w:
        raw = w.normal(s, case["raw"])
        value = w.build(s, case["raw"])
        try:
            expected = w.ref_dump(s, value)
        except S.Reject:
            ok, wire = attempt(dump, value, w.hint)
            check(not ok, lambda: f"dump() of {value!r} gave {wire!r} although keys collide")
            return Info(True, ["collision"])
        wire = dump(value, w.hint)
        check(S.wire_matches(expected, wire), lambda: f"dump() gave {wire!r}, expected {expected!r}")
        expect_raw(w, s, raw, load(wire, w.hint), f"load(dump(v)) through {wire!r}")
        expanded = get_fields_expanded(convert_to_schema(TypeHint(w.hint)))
        names = {a: sorted(b) for a, b in expanded.items()}
        model = {f["n"]: sorted(g["n"] for g in leaves(S.struct_fields(f["t"]))) for f in s[2] if f.get("flat")}
        check(names == model, lambda: f"get_fields_expanded() has {names}, expected {model}")
    return Info(bool(wire) and any(f.get("flat") or f.get("rem") for f in s[2]), labels(s))


def labels(s):
    out = []
    if any(f.get("rem") for f in s[2]):
        out.append("remainder")

    def depth(fs):
        return max((1 + depth(S.struct_fields(f["t"])) for f in fs if f.get("flat")), default=0)

    out.append(f"flattened:{depth(s[2])}")
    return out


@st.composite
def payload_cases(draw):
    s = draw(specs())
    style = draw(gen.styles())
    wire = gen.wire_of(s, style, draw(gen.raws(s)))
    for f in leaves(s[2]):
        key = S.wire_key(f)
        n = draw(st.integers(0, 11))
        if n == 0 or n < 5 and ("d" in f or S.is_opt(f["t"])):
            wire.pop(key, None)
        elif n in (6, 7) and len(f.get("al", [])) > 1:
            wire[f["al"][1]] = wire.pop(key)
        elif n == 8:
            wire[key] = draw(gen.json_scalars())
        elif n == 9 and f.get("al") and draw(st.booleans()):
            wire[f["n"]] = wire.pop(key)
    if draw(st.integers(0, 1)):
        pool = gen.IDENTS + gen.ALIASES + ["more", "other"]
        for key in draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3, unique=True)):
            wire.setdefault(key, draw(gen.json_values(3)))
    return {
        "spec": s,
        "payload": dict(draw(st.permutations(list(wire.items())))),
        "style": style,
        "call": draw(st.sampled_from([None, True, True, False])),
    }


def run_payload(case):
    s, p = case["spec"], case["payload"]
    with S.World(s, case["style"]) as w:
        try:
            expected = w.load_fields(s, p, extra=case["call"])
            verdict = "valid"
        except S.Reject:
            verdict = "reject"
        settings = [ExtraKeys(case["call"], w.recorder("call"))] if case["call"] is not None else []
        ok, value = attempt(load, p, w.hint, settings=settings)
        if verdict == "reject":
            check(not ok, lambda: f"load() accepted the invalid payload {p!r} and returned {value!r}")
        else:
            check(ok, lambda: f"load() refused the valid payload {p!r}: {value}")
            expect_raw(w, s, expected, value, f"load() of {p!r}")
            used = set()
            w.load_fields(s, p, extra=True, used=used)
            extra = sorted(p.keys() - used)
            want = []
            if extra and case["call"] and not any(f.get("rem") for f in s[2]) and (s[0] == "td" or s[3].get("extra") is None):
                want = [("call", extra)]
            check(w.records == want, lambda: f"recorded extra keys {w.records}, expected {want}")
    return Info(bool(p) and any(f.get("flat") or f.get("rem") for f in s[2]), labels(s) + [verdict])


@st.composite
def collision_cases(draw):
    """A chain of classes, each flattened into the one before, without any aliases."""

    names = st.lists(st.sampled_from("abcdefgh"), min_size=1, max_size=3, unique=True)
    return {"levels": draw(st.lists(names, min_size=2, max_size=4)), "place": draw(st.integers(0, 3))}


def run_collision(case):
    levels = case["levels"]
    cls, value, members = None, None, []
    for i, names in reversed(list(enumerate(levels))):
        fields = [(n, int) for n in names]
        if cls is not None:
            fields.insert(min(case["place"], len(fields)), (f"x{i}", t.Annotated[cls, Flattened()]))
        new = dataclasses.make_dataclass(f"Level{i}", fields)
        value = new(**{n: i for n in names}, **({f"x{i}": value} if cls is not None else {}))
        cls = new
    keys = [n for names in levels for n in names]
    payload = {n: i for i, names in enumerate(levels) for n in names}
    ok, got = try_any(load, payload, cls)
    ok2, got2 = try_any(dump, value, cls)
    if len(set(keys)) == len(keys):
        check(ok and got == value, lambda: f"load({payload!r}) gave {got!r} with the fields {levels}")
        check(ok2 and got2 == payload, lambda: f"dump() gave {got2!r} with the fields {levels}")
        return Info(True, ["distinct"])
    # One key can't be that of two fields; the declaration is not usable.  (What dump() makes of it is not specified.)
    check(not ok, lambda: f"load({payload!r}) gave {got!r} with the fields {levels}, of which some are the same")
    return Info(True, ["colliding"])


@st.composite
def alias_cases(draw):
    """Plain and flattened fields with keys of their own, or of the ones before."""

    key = st.sampled_from("pqrstuvw")
    return {"fields": draw(st.lists(st.one_of(key, st.lists(key, min_size=1, max_size=3, unique=True)), min_size=1, max_size=4)), "values": draw(st.lists(st.integers(0, 2), min_size=4, max_size=4))}


def run_alias(case):
    fields, args, payload, taken, lost = [], [], {}, set(), False
    for i, x in enumerate(case["fields"]):
        v = case["values"][i]
        if isinstance(x, str):
            if x in taken:
                # The keys of plain fields are distinct from all before.
                continue
            fields.append((f"f{i}", t.Annotated[int, Alias(x)]))
            args.append(v)
            x = [x]
        else:
            inner = dataclasses.make_dataclass(f"Inner{i}", [(f"g{i}{k}", t.Annotated[int, Alias(k)]) for k in x])
            fields.append((f"f{i}", t.Annotated[inner, Flattened()]))
            args.append(inner(*[v] * len(x)))
            lost = lost or not taken.isdisjoint(x)
        taken.update(x)
        payload.update((k, v) for k in x)
    cls = dataclasses.make_dataclass("Outer", fields)
    value = cls(*args)
    ok, got = try_any(dump, value, cls)
    if lost:
        check(not ok, lambda: f"dump() of {value!r} gave {got!r}, although flattened fields have keys of others ({case['fields']})")
        return Info(True, ["aliases collide"])
    check(ok and got == payload, lambda: f"dump() of {value!r} gave {got!r}, expected {payload!r}")
    check(load(payload, cls) == value, lambda: f"load({payload!r}) gave {load(payload, cls)!r}")
    return Info(len(fields) > 1, ["aliases differ"])


def try_any(fn, *args):
    try:
        return True, fn(*args)
    except Exception as exc:
        return False, exc


PARTS = {
    "aliases": Part(alias_cases, run_alias, 400, 8000),
    "collisions": Part(collision_cases, run_collision, 400, 8000),
    "values": Part(value_cases, run_value, 1200, 60000, describe),
    "payloads": Part(payload_cases, run_payload, 2000, 90000, describe),
}
REGRESSIONS = []
