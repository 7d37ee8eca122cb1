import re
import typing as t

import typing_extensions as te
from hypothesis import strategies as st
from typeapi import AnnotatedTypeHint

from databind.core import Context, Converter, Direction, Location
from databind.json import get_object_mapper

from pbt import codec, gen, spec as S
from pbt.props import c07, c08
from pbt.util import Info, Part, Violation, attempt, check, describe, dump, load

ID = "C14"
TECHNIQUE = "property-based fault injection: one fault at a known place of a valid payload or value, error trace compared"
RULE = (
    "A case is a generated type, a value of it, and one fault at one place of its payload (wrong value, missing key, extra "
    "key, bad mapping key, wrong length, bad discriminator) or of the value itself (a part replaced by an opaque object). "
    "The trace of the error is compared with the path of the place. Non-trivial: the path has at least one step."
)
ASSUMPTIONS = [
    "For an element of a plain union, the place is the union itself. The trace may name flattened members and remainder "
    "fields as steps of their own."
]

SCALARS = [None, True, 3, 1.5, "\x00zz", -7]
FILENAMES = [None, "config.json", "/etc/some file.yml", "a\"b"]


class Step:
    """A step that the trace may contain although it is not in the payload."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"({self.name!r})"


def places(w, s, p, path, outer=None):
    """All (path, operation) for faults in the payload."""

    outer = outer or s
    k = s[0]
    if k in ("any", "object"):
        return
    if k in ("newtype", "ann", "opt"):
        if k == "opt" and p is None:
            return
        yield from places(w, s[2] if k == "newtype" else s[1], p, path, outer)
        return
    if k == "ref":
        yield from places(w, w.defs[s[1]], p, path, outer)
        return
    yield path, ("bad", outer)
    if k in S.COLLECTIONS:
        for i, x in enumerate(p):
            yield from places(w, s[1], x, path + [i])
    elif k == "tuple":
        yield path, ("longer",)
        if p:
            yield path, ("shorter",)
        for i, (c, x) in enumerate(zip(s[1], p)):
            yield from places(w, c, x, path + [i])
    elif k in S.MAPPINGS:
        for a, b in p.items():
            yield from places(w, s[2], b, path + [a])
        for a in p:
            yield path, ("key", s[1], a)
    elif k in S.STRUCTS:
        yield from field_places(w, s, p, path, True)
    elif k == "dunion":
        _, _, style, dkey, nkey, members, _ = s
        table = dict(map(tuple, members))
        mid = next(iter(p)) if style == "keyed" else p[dkey]
        if style == "keyed":
            yield path, ("rename", mid, "no-such-member")
            yield path, ("extra",)
            yield path, ("remove", mid)
            yield from places(w, table[mid], p[mid], path + [mid])
        else:
            yield path, ("remove", dkey)
            yield path, ("set", dkey, "no-such-member")
            yield path + [dkey], ("put", 5)
            if style == "nested":
                yield path, ("remove", nkey or mid)
                yield from places(w, table[mid], p[nkey or mid], path + [nkey or mid])
            else:
                yield from field_places(w, table[mid], p, path, True)


def field_places(w, s, p, path, whole):
    rem = any(f.get("rem") for f in S.struct_fields(s))
    for f in S.struct_fields(s):
        t = f["t"]
        if f.get("flat"):
            while t[0] in ("ann", "ref"):
                t = t[1] if t[0] == "ann" else w.defs[t[1]]
            yield from field_places(w, t, p, path + [Step(f["n"])], False)
        elif f.get("rem"):
            known = {S.wire_key(g) for g in c07.leaves(S.struct_fields(s))}
            for a in p:
                if a not in known:
                    yield from places(w, f["t"][2], p[a], path + [Step(f["n"]), a])
        else:
            for key in S.read_keys(f):
                if key in p:
                    yield from places(w, t, p[key], path + [key])
                    if w.is_required(s, f):
                        yield path, ("remove", key)
                    break
    if whole and not rem:
        yield path, ("extra",)


def real(path):
    return [x for x in path if not isinstance(x, Step)]


def lookup(payload, path):
    for x in path:
        payload = payload[x]
    return payload


def apply(w, payload, path, op, which):
    """The payload with the fault, and the path at which it is, or None."""

    payload = S.copy_json(payload)
    path = list(path)
    place = real(path)
    target = lookup(payload, place)

    def replace(value):
        nonlocal payload
        if place:
            lookup(payload, place[:-1])[place[-1]] = value
        else:
            payload = value

    if op[0] == "bad":
        for v in SCALARS[which:] + SCALARS[:which] + [[], {}]:
            try:
                w.ref_load(op[1], v)
            except S.Reject:
                replace(v)
                return payload, path
            except S.Unknown:
                pass
        return None
    if op[0] == "put":
        replace(op[1])
    elif op[0] == "longer":
        target.append(None)
    elif op[0] == "shorter":
        target.pop()
    elif op[0] == "remove":
        del target[op[1]]
    elif op[0] == "set":
        target[op[1]] = op[2]
    elif op[0] == "rename":
        target[op[2]] = target.pop(op[1])
    elif op[0] == "extra":
        if "zz-extra" in target:
            return None
        target["zz-extra"] = 1
    elif op[0] == "key":
        try:
            w.ref_load(op[1], "no such\x00key")
            return None
        except S.Reject:
            pass
        except S.Unknown:
            return None
        target["no such\x00key"] = target.pop(op[2])
        path.append("Key('no such\\x00key')")
    return payload, path


def matches(expected, actual):
    """Whether the actual steps are the expected ones; `Step`s may be left out."""

    if not expected:
        return not actual
    head = expected[0]
    if isinstance(head, Step):
        return matches(expected[1:], actual) or bool(actual) and actual[0] == head.name and matches(expected[1:], actual[1:])
    return bool(actual) and type(actual[0]) is type(head) and actual[0] == head and matches(expected[1:], actual[1:])


def head(key):
    return f".{key}: " if isinstance(key, str) else f"[{key}]: " if isinstance(key, int) else f"[{key!r}]: "


def check_error(exc, expected, filename, what, values=None):
    chain = list(exc.context.iter_hierarchy_up())[::-1]
    check(chain[0].key is Context.ROOT and chain[0].parent is None, lambda: f"{what}: the trace does not begin at the root")
    steps = [c for c in chain[1:] if c.key is not None]
    keys = [c.key for c in steps]
    check(matches(expected, keys), lambda: f"{what}: the trace is {keys}, expected {expected}")
    for c in chain:
        check(c.location.filename == filename, lambda: f"{what}: file name {c.location.filename!r} at {c.key!r}, expected {filename!r}")
    if values is not None:
        check(values(steps), lambda: f"{what}: the values along the trace {keys} are {[c.value for c in steps]}")
    text = str(exc)
    pos = 0
    if filename is not None:
        check(f'In "{filename}"' in text, lambda: f"{what}: no file name in the message {text}")
    if not all(k.isprintable() for k in keys if isinstance(k, str)):
        return
    for c in chain:
        h = "$: " if c.key is Context.ROOT else "^: " if c.key is None else head(c.key)
        at = text.find(h, pos)
        check(at >= 0, lambda: f"{what}: no {h!r} in its place in the message {text}")
        pos = at + len(h)


def larger(draw, s):
    raws = gen.raws(s)
    return max(draw(raws), draw(raws), key=lambda r: len(codec.canon(r)))


@st.composite
def structured(draw):
    s = draw(gen.Gen(depth=draw(st.sampled_from([1, 2, 2, 3]))).spec())
    how = draw(st.integers(0, 9))
    if S.size(s) == 1 or how == 0:
        s = ["dc", None, [{"n": "name", "t": ["list", s], "al": ["full-name"]}, {"n": "data", "t": ["dict", draw(gen.key_specs()), s]}], {}]
    elif how < 4:
        s = ["dict", draw(gen.key_specs()), s]
    elif how < 6:
        s = [draw(st.sampled_from(["list", "seq", "vtuple", "deque"])), s]
    return S.rename(s)


@st.composite
def load_cases(draw):
    how = draw(st.sampled_from(["gen", "gen", "flat", "union"]))
    s = draw(c07.specs() if how == "flat" else c08.specs() if how == "union" else structured())
    return {
        "spec": s,
        "raw": larger(draw, s),
        "style": draw(gen.styles()),
        "place": draw(st.integers(0, 1000)),
        "deep": draw(st.integers(0, 5)) > 0,
        "op": draw(st.integers(0, 11)),
        "which": draw(st.integers(0, 5)),
        "filename": draw(st.sampled_from(FILENAMES)),
        "line": draw(st.one_of(st.none(), st.integers(1, 99))),
        "ahead": draw(st.sampled_from([0, 0, 0, 0, 0, 0, 3, 12, 130, 999, 1000, 1201])),
    }


def run_load(case):
    s = case["spec"]
    with S.World(s, case["style"]) as w:
        try:
            wire = S.wire_text(w.ref_dump(s, w.build(s, case["raw"])))
            w.ref_load(s, wire)
        except (S.Unknown, S.Reject):
            return Info(False, ["unspecified"])
        found = list(places(w, s, wire, []))
        if not found:
            return Info(False, ["no place"])
        if case["deep"]:
            found = [x for x in found if real(x[0])] or found
        ops = sorted({x[1][0] for x in found})
        op = ops[case["op"] % len(ops)]
        found = [x for x in found if x[1][0] == op]
        path, op = found[case["place"] % len(found)]
        faulty = apply(w, wire, path, op, case["which"])
        if faulty is None:
            return Info(False, ["no fault"])
        payload, path = faulty
        try:
            w.ref_load(s, payload)
            return Info(False, ["still valid"])
        except S.Unknown:
            return Info(False, ["unspecified"])
        except S.Reject:
            pass
        location = Location(case["filename"], case["line"], 7 if case["line"] else None)
        hint = w.hint
        if case["ahead"] and len(codec.canon(wire)) < 120:
            # It is behind many elements that are valid.
            n, hint = case["ahead"], t.List[w.hint]
            payload, path = [wire] * n + [payload], [n, *path]
        ok, exc = attempt(get_object_mapper().convert, Direction.DESERIALIZE, payload, hint, location)
        what = f"{op[0]} at {path} in {payload!r}"
        check(not ok, lambda: f"{what}: loaded {exc!r}\n{w.source[600:]}")

        def values(steps, at=payload):
            if not steps:
                return True
            c, rest = steps[0], steps[1:]
            if isinstance(at, dict) and c.key in at or isinstance(at, list) and isinstance(c.key, int):
                if codec.canon(c.value) == codec.canon(at[c.key]) and values(rest, at[c.key]):
                    return True
            if not isinstance(c.key, str) or not isinstance(at, dict):
                return False
            if c.key.startswith("Key("):
                return values(rest, at)
            # A flattened member or a remainder field, which may have the name of a key
            return isinstance(c.value, dict) and all(codec.canon(x) == codec.canon(at.get(k)) for k, x in c.value.items()) and values(rest, at)

        check_error(exc, path, case["filename"], what + "\n" + w.source[600:], values)
        root = list(exc.context.iter_hierarchy_up())[-1]
        check(root.location == location, lambda: f"the location of the root is {root.location}")
        check(codec.canon(root.value) == codec.canon(payload), "the value of the root is not the payload")
        if case["line"]:
            check(f"(at {case['line']}:7)" in str(exc), lambda: f"no line and column in {exc}")
        if case["filename"] and not case["line"]:
            ok, exc = attempt(load, payload, hint, case["filename"])
            check(not ok, "loaded")
            check_error(exc, path, case["filename"], what, values)
        return Info(bool(real(path)), [op[0], f"steps:{min(len(path), 6)}"] + (["behind many"] if hint is not w.hint else []))


class Intruder:
    """Is not a value of any type."""

    __hash__ = object.__hash__

    def __repr__(self):
        return "<intruder>"


def find(v, needle, w):
    """The path of the object in a value."""

    if v is needle:
        return []
    if isinstance(v, dict):
        for a, b in v.items():
            if a is needle:
                return [f"Key({a!r})"]
            p = find(b, needle, w)
            if p is not None:
                return [a] + p
    elif hasattr(v, "_fields"):
        for n in v._fields:
            p = find(getattr(v, n), needle, w)
            if p is not None:
                return [n] + p
    elif hasattr(type(v), "__dataclass_fields__"):
        for n in type(v).__dataclass_fields__:
            p = find(getattr(v, n), needle, w)
            if p is not None:
                return [n] + p
    elif isinstance(v, (list, tuple, set, frozenset)) or type(v).__name__ == "deque":
        for i, x in enumerate(v):
            p = find(x, needle, w)
            if p is not None:
                return [i] + p
    return None


def opaque(s):
    """Whether any value is one of the type."""

    while s[0] in ("ann", "opt", "newtype", "das"):
        s = s[{"newtype": 2, "das": 3}.get(s[0], 1)]
    return s[0] in ("any", "object")


@st.composite
def dump_cases(draw):
    s = draw(structured())
    return {"spec": s, "raw": larger(draw, s), "style": draw(gen.styles()), "place": draw(st.integers(0, 1000)), "deep": draw(st.integers(0, 5)) > 0, "filename": draw(st.sampled_from(FILENAMES))}


def run_dump(case):
    s = case["spec"]
    if any(x[0] == "union" for x in S.walk(s)):
        return Info(False, ["plain union"])
    with S.World(s, case["style"]) as w:
        parts = []
        w.build_with(s, case["raw"], lambda s, v: parts.append(s) or v)
        usable = [i for i, t in enumerate(parts) if not opaque(t)]
        if not usable:
            return Info(False, ["no place"])
        if case["deep"]:
            usable = usable[:-1] or usable  # The last one is the whole value
        n = usable[case["place"] % len(usable)]
        counter = iter(range(10**9))
        needle = Intruder()
        try:
            value = w.build_with(s, case["raw"], lambda s, v: needle if next(counter) == n else v)
        except TypeError:
            return Info(False, ["unspecified"])
        path = find(value, needle, w)
        if path is None:
            return Info(False, ["lost"])
        ok, exc = attempt(dump, value, w.hint, case["filename"])
        what = f"intruder at {path}"
        check(not ok, lambda: f"{what}: dumped {exc!r}\n{w.source[600:]}")
        check_error(exc, path, case["filename"], what + "\n" + w.source[600:], lambda steps: not steps or steps[-1].value is needle)
        return Info(bool(path), [f"steps:{min(len(path), 6)}"])


class Include:
    """In an annotation, says that the value is in a place of its own."""

    def __init__(self, hint, key, location):
        self.hint, self.key, self.location = hint, key, location

    def __repr__(self):
        return "Include()"


class Included:
    pass


class IncludeConverter(Converter):
    def convert(self, ctx):
        if isinstance(ctx.datatype, AnnotatedTypeHint):
            for m in ctx.datatype.metadata:
                if isinstance(m, Include):
                    if m.location is None:
                        return ctx.spawn(ctx.value, m.hint, m.key).convert()
                    return ctx.spawn(ctx.value, m.hint, m.key, m.location).convert()
        raise NotImplementedError


LOCATIONS = st.tuples(
    st.sampled_from([None, "a.yml", "b.yml", "dir/c.json"]),
    st.one_of(st.none(), st.integers(1000, 9999)),
    st.one_of(st.none(), st.integers(1000, 9999)),
)
STEPS = st.one_of(
    st.tuples(st.just("list"), st.integers(0, 3), st.none()),
    st.tuples(st.just("dict"), st.sampled_from(["first", "b c", "0"]), st.none()),
    st.tuples(st.just("include"), st.sampled_from([None, "part", "other part", 5, 0]), st.one_of(st.none(), LOCATIONS, LOCATIONS)),
    st.tuples(st.just("include"), st.sampled_from([None, "part", "other part", 5, 0]), st.one_of(st.none(), LOCATIONS, LOCATIONS)),
)


@st.composite
def location_cases(draw):
    return {"root": list(draw(LOCATIONS)), "steps": [list(s) for s in draw(st.lists(STEPS, max_size=7))], "dump": draw(st.booleans())}


def run_locations(case):
    """Parts of a value that come from other files: every step of the trace has its own place."""

    root = Location(*case["root"])
    expected = [(Context.ROOT, root)]
    for what, key, loc in case["steps"]:
        inherited = Location(expected[-1][1].filename, None, None)
        expected.append((key, Location(*loc) if loc is not None else inherited))
    hint, value = int, "bad"
    for what, key, loc in reversed(case["steps"]):
        if what == "list":
            hint, value = t.List[hint], [None] * key + [value]
            if key:
                hint = t.List[t.Optional[hint.__args__[0]]]
        elif what == "dict":
            hint, value = t.Dict[str, hint], {key: value}
        else:
            hint = te.Annotated[Included, Include(hint, key, Location(*loc) if loc is not None else None)]
    mapper = get_object_mapper()
    mapper.module.register(IncludeConverter(), first=True)
    direction = Direction.SERIALIZE if case["dump"] else Direction.DESERIALIZE
    ok, exc = attempt(mapper.convert, direction, value, hint, root)
    what = f"{case}"
    check(not ok, lambda: f"{what}: got {exc!r}")
    chain = list(exc.context.iter_hierarchy_up())[::-1]
    # Optional[...] is a step of its own, without a key and in the same file.
    i = 0
    for c in chain:
        if i < len(expected) and c.key == expected[i][0] and c.location == expected[i][1]:
            i += 1
        else:
            check(
                c.key is None and c.location == Location(c.parent.location.filename, None, None),
                lambda: f"{what}: unexpected step {c.key!r} with {c.location}",
            )
    check(i == len(expected), lambda: f"{what}: the trace is {[(c.key, c.location) for c in chain]}")
    text = str(exc)
    pos, previous, count = 0, None, 0
    for i, c in enumerate(chain):
        at = pos
        if c.location.filename is not None and c.location.filename != previous:
            previous, count = c.location.filename, count + 1
            at = text.find(f'In "{previous}"', pos)
            check(at >= 0, lambda: f"{what}: {previous!r} is not named in its place in {text}")
        h = "$: " if c.key is Context.ROOT else "^: " if c.key is None else head(c.key)
        at = text.find(h, at)
        check(at >= 0, lambda: f"{what}: no {h!r} in its place in {text}")
        pos = at + len(h)
        line = text[pos:].split("\n", 1)[0]
        for n in (c.location.line, c.location.column):
            check(n is None or str(n) in line, lambda: f"{what}: {n} is not in the line {line!r} of {text}")
        if c.location.line is None and c.location.column is None:
            check(re.search("[0-9]{4}", line) is None, lambda: f"{what}: a place in the line {line!r} of {text}")
    check(text.count('In "') == count, lambda: f"{what}: not {count} file names in {text}")
    return Info(len(case["steps"]) > 0, [f"steps:{len(case['steps'])}", f"files:{count}", "dump" if case["dump"] else "load"])


PARTS = {"locations": Part(location_cases, run_locations, 1200, 40000), "load": Part(load_cases, run_load, 3000, 150000, describe), "dump": Part(dump_cases, run_dump, 1200, 60000, describe)}
REGRESSIONS = []
