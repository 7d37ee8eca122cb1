from collections import Counter

from hypothesis import strategies as st

from typeapi import TypeHint

from databind.core import ExtraKeys, convert_to_schema
from databind.json import get_object_mapper

from pbt import codec, gen, spec as S
from pbt.util import Info, Part, Violation, attempt, check, describe, dump, expect_raw, load

ID = "C06"
TECHNIQUE = "property-based testing: model of key lookup, defaults and extra keys over generated classes and payloads"
RULE = (
    "A case is a generated structure of dataclasses and typed dicts (aliases, required-ness, defaults, extra-keys settings "
    "on classes and fields), a payload with any subset of the keys and extra keys, and the extra-keys setting of the call. "
    "Non-trivial: some key is missing, surplus, or an alternative alias."
)

LEAF = st.sampled_from([["int"], ["str"], ["bool"], ["float"], ["decimal"], ["opt", ["int"]], ["opt", ["str"]], ["list", ["int"]], ["dict", ["str"], ["int"]], ["any"], ["union", [["int"], ["str"]]], ["union", [["list", ["int"]], ["bool"], ["str"]]], ["opt", ["union", [["int"], ["str"]]]], ["date"], ["tuple", [["int"], ["str"]]]])
KEYS = gen.IDENTS + gen.ALIASES
SPECIAL = ["", " ", "self", "cls", "type", "__class__", "fields", "None"]


@st.composite
def fields(draw, kind, depth):
    names = draw(st.lists(st.sampled_from(gen.IDENTS), min_size=1, max_size=4, unique=True))
    aliased = [n for n in names if draw(st.booleans())]
    used = set(names) - set(aliased)
    out = []
    for n in names:
        if depth > 0 and draw(st.integers(0, 2)) == 0:
            t = draw(structs(depth - 1))
            shape = draw(st.integers(0, 4))
            if shape == 0:
                t = ["list", t]
            elif shape == 1:
                t = ["dict", ["str"], t]
            elif shape == 2:
                t = ["opt", t]
            elif shape == 3:
                t = ["ann", t]
        else:
            t = draw(LEAF)
        f = {"n": n, "t": t}
        if n in aliased:
            # The names of fields are keys like any other if the field has aliases.
            f["al"] = draw(st.lists(st.sampled_from([k for k in KEYS if k not in used]), min_size=1, max_size=draw(st.sampled_from([1, 2, 3, 3, 6])), unique=True))
            used.update(f["al"])
        simple = all(x[0] not in S.STRUCTS for x in S.walk(t))
        if kind == "dc" and simple and draw(st.booleans()):
            f["d"] = [draw(gen.raws(t))]
        how = draw(st.integers(0, 5))
        if how == 0 and kind == "dc":
            f["req"] = True
        elif how == 1 and kind == "dc" and ("d" in f or S.is_opt(t)):
            f["req"] = False
        if draw(st.integers(0, 5)) == 0:
            f["ek"] = draw(st.booleans())
            f["meta"] = [f"ExtraKeys({f['ek']!r})"]
        out.append(f)
    return [f for f in out if "d" not in f] + [f for f in out if "d" in f]


@st.composite
def structs(draw, depth):
    if draw(st.integers(0, 4)) == 0:
        total = draw(st.booleans())
        fs = draw(fields("td", depth))
        if not total:
            fs = [f for f in fs if not S.is_opt(f["t"])]
        return ["td", None, fs, total]
    opts = {}
    extra = draw(st.integers(0, 4))
    if extra < 2:
        opts["extra"] = bool(extra)
        if draw(st.booleans()):
            opts["rec"] = True
    return ["dc", None, draw(fields("dc", depth)), opts]


@st.composite
def payloads(draw, s, changes):
    k = s[0]
    if k == "ann":
        return draw(payloads(s[1], changes))
    if k == "opt" and s[1][0] in S.STRUCTS:
        return draw(payloads(s[1], changes)) if draw(st.integers(0, 3)) else None
    if k == "list" and s[1][0] in S.STRUCTS:
        return [draw(payloads(s[1], changes)) for _ in range(draw(st.integers(0, 2)))]
    if k == "dict" and s[2][0] in S.STRUCTS:
        return {x: draw(payloads(s[2], changes)) for x in draw(st.lists(st.sampled_from(["p", "q", ""]), max_size=2, unique=True))}
    if k not in S.STRUCTS:
        return gen.wire_of(s, {}, draw(gen.raws(s)))
    out = {}
    for f in s[2]:
        keys = S.read_keys(f)
        optional = f.get("req") is False or (f.get("req") is None and ("d" in f or S.is_opt(f["t"]))) or (k == "td" and not s[3])
        n = draw(st.integers(0, 39))
        if n == 0 or optional and n < 18:
            changes.append("missing")
            continue
        key = draw(st.sampled_from(keys))
        if key != keys[0]:
            changes.append("alias")
        out[key] = draw(payloads(f["t"], changes))
        if draw(st.integers(0, 29)) == 0:
            # Another one of the aliases is present as well.
            other = draw(st.sampled_from(keys))
            if other not in out:
                out[other] = draw(payloads(f["t"], changes))
                changes.append("second alias")
        if draw(st.integers(0, 49)) == 0:
            out[key] = draw(gen.json_scalars())
            changes.append("value")
    if draw(st.integers(0, 3)) == 0:
        taken = set(out) | {x for f in s[2] for x in S.read_keys(f)}
        pool = [x for x in KEYS + SPECIAL + [f["n"] for f in s[2]] if x not in taken]
        for x in draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3, unique=True)):
            out[x] = draw(gen.json_values(3))
            changes.append("extra")
    return dict(draw(st.permutations(list(out.items()))))


@st.composite
def cases(draw):
    s = S.rename(draw(structs(draw(st.integers(0, 2)))))
    changes = []
    payload = draw(payloads(s, changes))
    call = draw(st.sampled_from([None, True, True, True, True, False]))
    return {
        "spec": s,
        "payload": payload,
        "changes": sorted(set(changes)),
        "style": draw(gen.styles()),
        "call": call,
        "rec": draw(st.integers(0, 3)) > 0,
        "where": draw(st.sampled_from(["call", "mapper"])),
    }


def is_required(s, f):
    required = f.get("req")
    if required is None:
        required = (s[3] if s[0] == "td" else "d" not in f) and not S.is_opt(f["t"])
    return required


class Model(S.World):
    """The reference decoder, with settings for extra keys."""

    def load(self, s, p, call, rec, annotation, expected):
        k = s[0]
        if k == "ann":
            return self.load(s[1], p, call, rec, annotation, expected)
        if k == "opt":
            # The annotations of an optional type are handed on.
            return None if p is None else [self.load(s[1], p, call, rec, annotation, expected)]
        if k == "list" and type(p) is list:
            return [self.load(s[1], x, call, rec, None, expected) for x in p]
        if k == "dict" and type(p) is dict:
            return self.sorted([[a, self.load(s[2], x, call, rec, None, expected)] for a, x in p.items()])
        if k not in S.STRUCTS:
            return self.ref_load(s, p)
        if type(p) is not dict:
            raise S.Reject
        out, used = {}, set()
        for f in s[2]:
            for key in S.read_keys(f):
                if key in p:
                    used.add(key)
                    out[f["n"]] = self.load(f["t"], p[key], call, rec, f.get("ek"), expected)
                    break
            else:
                if is_required(s, f):
                    raise S.Reject
                if "d" in f:
                    out[f["n"]] = self.normal(f["t"], f["d"][0])
                elif S.is_opt(f["t"]):
                    out[f["n"]] = None
        extra = sorted(p.keys() - used)
        if extra:
            of_class = s[3].get("extra") if k == "dc" else None
            # The closest setting is in effect.
            if annotation is not None:
                allow, label = annotation, None
            elif of_class is not None:
                allow, label = of_class, s[1] if s[3].get("rec") else None
            else:
                allow, label = bool(call), "call" if rec else None
            if not allow:
                raise S.Reject
            if label is not None:
                expected.append((label, extra))
        return out

    def sorted(self, items):
        items.sort(key=lambda p: codec.canon(p[0]))
        return items


def run(case):
    s, p = case["spec"], case["payload"]
    with Model(s, case["style"]) as w:
        for x in S.walk(s):
            if x[0] in S.STRUCTS:
                schema = convert_to_schema(TypeHint(w.ns[x[1]]))
                check(set(schema.fields) == {f["n"] for f in x[2]}, lambda: f"the schema of {x[1]} has {list(schema.fields)}")
                for f in x[2]:
                    field = schema.fields[f["n"]]
                    check(field.aliases == tuple(f.get("al") or ()), lambda: f"aliases of {x[1]}.{f['n']} are {field.aliases}")
                    check(field.required == is_required(x, f), lambda: f"{x[1]}.{f['n']}: required={field.required}")
                    if "d" in f:
                        check(field.has_default(), lambda: f"{x[1]}.{f['n']} has no default")
        expected_records = []
        try:
            expected = w.load(s, p, case["call"], case["rec"], None, expected_records)
            verdict = "valid"
        except S.Reject:
            verdict = "reject"
        except S.Unknown:
            return Info(False, ["a payload of unspecified meaning"])
        settings = []
        if case["call"] is not None:
            settings.append(ExtraKeys(case["call"], w.recorder("call") if case["rec"] else None))
        if case["where"] == "call":
            ok, value = attempt(load, p, w.hint, settings=settings)
        else:
            mapper = get_object_mapper().copy()
            for x in settings:
                mapper.settings.add_global(x)
            ok, value = attempt(mapper.deserialize, p, w.hint)
        if verdict == "reject":
            check(not ok, lambda: f"load() accepted the invalid payload {p!r} and returned {value!r}")
        else:
            check(ok, lambda: f"load() refused the valid payload {p!r}: {value}")
            expect_raw(w, s, expected, value, f"load() of {p!r}")
            got = Counter((a, tuple(b)) for a, b in w.records)
            want = Counter((a, tuple(b)) for a, b in expected_records)
            check(got == want, lambda: f"recorded extra keys {dict(got)}, expected {dict(want)}")
            wire = dump(value, w.hint)
            form = w.ref_dump(s, value)
            check(S.wire_matches(form, wire), lambda: f"dump() gave {wire!r}, expected {form!r}")
    return Info(bool(case["changes"]), case["changes"] + [verdict] + S.kinds(s) + (["records"] if expected_records else []))


PARTS = {"structs": Part(cases, run, 3200, 150000, describe)}
REGRESSIONS = []
