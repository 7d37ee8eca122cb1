import datetime
import re
import typing as t

from hypothesis import strategies as st
from nr.date import date_format, datetime_format, duration, format_set, time_format

from databind.core import ConversionError, DateFormat
from databind.json import get_object_mapper

from pbt.util import Info, Part, attempt, check, dump, load

ID = "C18"
TECHNIQUE = "property-based testing: generated moments, format lists and texts against an own implementation of the formats"
RULE = (
    "Part formats: a list of generated formats (text, compiled for one of the types, sets of formats, built-in names), a "
    "moment and texts (in one of the formats, mutated, or foreign); writing uses the first format that applies to the type, "
    "reading the first that matches; by load() and dump() and by the setting itself. Part names: built-in names that do not exist. Part iso: moments over the full range and texts near ISO 8601 without any setting, "
    "against an own grammar. Part durations: the same for durations. Non-trivial: the text or value is not the default one "
    "and at least one format applies."
)
ASSUMPTIONS = [
    "The time zone of a bare time is lost by the nr.date library (not part of the repository), so times have none here; so "
    "are fractions of seconds in durations. Texts are ASCII without line breaks, fractions have up to six digits."
]

TYPES = {"date": datetime.date, "time": datetime.time, "datetime": datetime.datetime}
DATE_OPTIONS, TIME_OPTIONS = "Ymd", "HMSfz"
LITERALS = ["-", "/", ".", " ", "T", ":", "", "at ", "(", "?", "+", "\\", "^", "[x]", "|"]


def option_kind(c):
    return "date" if c in DATE_OPTIONS else "time"


@st.composite
def format_texts(draw, kinds):
    """Text of a format; every option at most once and no digits next to the fraction, as it is ambiguous otherwise."""

    options = [c for k in kinds for c in (DATE_OPTIONS if k == "date" else TIME_OPTIONS)]
    if "time" in kinds and "date" not in kinds:
        options.remove("z")
    chosen = draw(st.lists(st.sampled_from(options), min_size=1, max_size=len(options), unique=True))
    if draw(st.integers(0, 2)):
        chosen.sort(key="YmdHMSfz".index)
    out = draw(st.sampled_from(["", "", "", "on "]))
    for i, c in enumerate(chosen):
        out += "%" + c
        if i + 1 < len(chosen):
            lit = draw(st.sampled_from(LITERALS))
            if lit in ("", "+", "-", ":") and "f" in (c, chosen[i + 1]) or "z" in (c, chosen[i + 1]):
                lit = " "
            out += lit
    return out


@st.composite
def formats(draw):
    kind = draw(st.sampled_from(["text"] * 5 + ["date", "time", "datetime", "set", "iso", "java"]))
    if kind == "text":
        return ["text", draw(st.one_of(format_texts(["date"]), format_texts(["time"]), format_texts(["date", "time"])))]
    if kind in TYPES:
        return [kind, draw(format_texts(["date", "time"] if kind == "datetime" else [kind]))]
    if kind == "set":
        return [
            "set",
            [
                draw(st.lists(format_texts(["date"]), max_size=2)),
                draw(st.lists(format_texts(["time"]), max_size=2)),
                draw(st.lists(format_texts(["date", "time"]), max_size=2)),
            ],
        ]
    return [kind]


def moments(kind):
    year = st.one_of(st.integers(1, 9999), st.sampled_from([1, 99, 999, 1970, 9999]))
    micro = st.one_of(st.just(0), st.integers(0, 999999), st.sampled_from([1, 10, 100000, 120000, 999999]))
    date = st.tuples(year, st.integers(1, 12), st.integers(1, 28))
    time = st.tuples(st.integers(0, 23), st.integers(0, 59), st.integers(0, 59), micro)
    zone = st.one_of(st.none(), st.just(0), st.integers(-23 * 60 - 59, 23 * 60 + 59), st.sampled_from([60, -60, 330, -210, -30, 30]))
    if kind == "date":
        return date.map(list)
    if kind == "time":
        return time.map(list)
    return st.tuples(date, time, zone).map(lambda p: [*p[0], *p[1], p[2]])


def build(kind, raw, sub=False):
    if kind == "date":
        return datetime.date(*raw)
    if kind == "time":
        return datetime.time(*raw)
    *rest, tz = raw
    zone = None if tz is None else datetime.timezone.utc if tz == 0 else datetime.timezone(datetime.timedelta(minutes=tz))
    return (Moment if sub else datetime.datetime)(*rest, tzinfo=zone)


class Moment(datetime.datetime):
    pass


# --- the model of formats

DIGITS = {"Y": 4, "m": 2, "d": 2, "H": 2, "M": 2, "S": 2}
ATTRIBUTES = {"Y": "year", "m": "month", "d": "day", "H": "hour", "M": "minute", "S": "second"}


def tokens(fmt):
    i = 0
    while i < len(fmt):
        if fmt[i] == "%":
            yield True, fmt[i + 1]
            i += 2
        else:
            yield False, fmt[i]
            i += 1


def write_zone(dt):
    offset = dt.utcoffset() if isinstance(dt, datetime.datetime) else None
    if offset is None:
        return ""
    minutes = int(offset.total_seconds()) // 60
    if minutes == 0:
        return "Z"
    return f"{'-' if minutes < 0 else '+'}{abs(minutes) // 60:02}:{abs(minutes) % 60:02}"


def write_micro(n):
    return f"{n:06}".rstrip("0") or "0"


def write(fmt, v):
    out = ""
    for is_option, c in tokens(fmt):
        if not is_option:
            out += c
        elif c in DIGITS:
            out += str(getattr(v, ATTRIBUTES[c], 0)).rjust(DIGITS[c], "0")
        elif c == "f":
            out += write_micro(v.microsecond)
        else:
            out += write_zone(v)
    return out


def moment(kind, parts):
    """The moment, or None if there is none."""

    try:
        zone = parts.get("z")
        if zone is not None:
            zone = datetime.timezone.utc if zone == 0 else datetime.timezone(datetime.timedelta(minutes=zone))
        dt = datetime.datetime(
            parts.get("Y", 1900), parts.get("m", 1), parts.get("d", 1), parts.get("H", 0), parts.get("M", 0), parts.get("S", 0), parts.get("f", 0), zone
        )
    except ValueError:
        return None
    return dt.date() if kind == "date" else dt.time() if kind == "time" else dt


def read_zone(text):
    if text == "Z":
        return 0
    digits = re.sub(r"[-+:]", "", text)
    n = int(digits[:2]) * 60 + int(digits[2:] or 0)
    return -n if text[0] == "-" else n


ZONE = r"(?:Z|[-+][0-9]{2}(?::?[0-9]{2})?)"


def read(kind, fmt, text):
    names, regex = [], ""
    for is_option, c in tokens(fmt):
        if not is_option:
            regex += re.escape(c)
            continue
        names.append(c)
        regex += f"([0-9]{{{DIGITS[c]}}})" if c in DIGITS else "([0-9]{1,6})" if c == "f" else f"({ZONE})"
    m = re.fullmatch(regex, text)
    if m is None:
        return None
    parts = {}
    for c, s in zip(names, m.groups()):
        parts[c] = int(s) if c in DIGITS else int(s.ljust(6, "0")) if c == "f" else read_zone(s)
    return moment(kind, parts)


ISO_DATE = ["(?P<Y>[0-9]{4})(?:-(?P<m>[0-9]{2})(?:-(?P<d>[0-9]{2}))?)?", "(?P<Y>[0-9]{4})(?:(?P<m>[0-9]{2})(?P<d>[0-9]{2})?)?"]
ISO_TIME = [
    r"(?P<H>[0-9]{2})(?::(?P<M>[0-9]{2})(?::(?P<S>[0-9]{2})(?:\.(?P<f>[0-9]{1,6}))?)?)?(?P<z>" + ZONE + ")?",
    "(?P<H>[0-9]{2})(?:(?P<M>[0-9]{2})(?P<S>[0-9]{2})?)?(?P<z>" + ZONE + ")?",
]
JAVA = r"(?P<Y>[0-9]{4})-(?P<m>[0-9]{2})-(?P<d>[0-9]{2})T(?P<H>[0-9]{2}):(?P<M>[0-9]{2})(?::(?P<S>[0-9]{2})(?:\.(?P<f>[0-9]{1,6}))?)?(?P<z>" + ZONE + ")?"


def read_patterns(kind, patterns, text):
    for p in patterns:
        m = re.fullmatch(p, text)
        if m:
            parts = {}
            for c, s in m.groupdict().items():
                if s is not None:
                    parts[c] = int(s) if c in DIGITS else int(s.ljust(6, "0")) if c == "f" else read_zone(s)
            found = moment(kind, parts)
            if found is not None:
                return found
    return None


def read_iso(kind, text):
    if kind == "date":
        patterns = ISO_DATE
    elif kind == "time":
        patterns = ISO_TIME
    else:
        patterns = [a + "T" + b for a, b in zip(ISO_DATE, ISO_TIME)]
    return read_patterns(kind, patterns, text)


def write_iso(kind, v):
    out = []
    if kind != "time":
        out.append(f"{v.year:04}-{v.month:02}-{v.day:02}")
    if kind != "date":
        out.append(f"{v.hour:02}:{v.minute:02}:{v.second:02}.{write_micro(v.microsecond)}{write_zone(v)}")
    return "T".join(out)


def applicable(fmt, kind):
    """The formats for the type: texts, "iso" or "java"."""

    k = fmt[0]
    if k == "iso":
        return ["iso"]
    if k == "java":
        return ["java"] if kind == "datetime" else []
    if k == "set":
        return [["text", f] for f in fmt[1][list(TYPES).index(kind)]]
    kinds = {option_kind(c) for is_option, c in tokens(fmt[1]) if is_option}
    if k == "text":
        return [["text", fmt[1]]] if kind == "datetime" or kinds <= {kind} else []
    return [["text", fmt[1]]] if k == kind else []


def model_write(fmts, kind, v):
    for f in fmts:
        for a in applicable(f, kind):
            return write(a[1], v) if a[0] == "text" else write_iso(kind, v)
    return None


def model_read(fmts, kind, text):
    for f in fmts:
        for a in applicable(f, kind):
            if a == "iso":
                got = read_iso(kind, text)
            elif a == "java":
                got = read_patterns(kind, [JAVA], text)
            else:
                got = read(kind, a[1], text)
            if got is not None:
                return got
    return None


def real_format(f):
    k = f[0]
    if k == "text":
        return f[1]
    if k == "iso":
        return ".ISO_8601"
    if k == "java":
        return ".JAVA_OFFSET_DATETIME"
    compile_ = {"date": date_format.compile, "time": time_format.compile, "datetime": datetime_format.compile}
    if k == "set":
        return format_set("generated", None, *([compile_[n](x) for x in xs] for n, xs in zip(TYPES, f[1])))
    return compile_[k](f[1])


# --- formats


@st.composite
def format_cases(draw):
    kind = draw(st.sampled_from(list(TYPES)))
    fmts = draw(st.lists(formats(), min_size=1, max_size=4))
    texts = []
    for _ in range(draw(st.integers(1, 4))):
        how = draw(st.sampled_from(["same", "same", "mutated", "other", "iso", "foreign"]))
        value = build(kind, draw(moments(kind)))
        mine = [a for f in fmts for a in applicable(f, kind)]
        if how == "foreign":
            texts.append(draw(st.text("0123456789-:T.Z+/ x", max_size=20)))
            continue
        if how == "iso" or not mine and how != "other":
            texts.append(write_iso(kind, value))
            continue
        if how == "other":
            a = ["text", draw(format_texts(["date", "time"] if kind == "datetime" else [kind]))]
        else:
            a = draw(st.sampled_from(mine))
        text = write(a[1], value) if a[0] == "text" else write_iso(kind, value)
        if how == "mutated" and text:
            i = draw(st.integers(0, len(text) - 1))
            edit = draw(st.sampled_from(["drop", "insert", "replace", "twice"]))
            c = draw(st.sampled_from("0193-:T. Zx"))
            text = {
                "drop": text[:i] + text[i + 1 :],
                "insert": text[:i] + c + text[i:],
                "replace": text[:i] + c + text[i + 1 :],
                "twice": text + text,
            }[edit]
        texts.append(text)
    return {
        "kind": kind,
        "formats": fmts,
        "value": draw(moments(kind)),
        "sub": draw(st.integers(0, 5)) == 0,
        "texts": texts,
        "where": draw(st.sampled_from(["annotation", "call", "mapper", "converter", "setting"])),
    }


def same(a, b):
    return type(a) is type(b) and a == b and (not hasattr(a, "tzinfo") or (a.tzinfo is None) == (b.tzinfo is None) and a.utcoffset() == b.utcoffset())


def by_setting(fn, *args):
    try:
        return fn(*args)
    except ValueError as exc:
        raise ConversionError(None, None, str(exc))


def run_formats(case):
    kind, fmts = case["kind"], case["formats"]
    T = TYPES[kind]
    setting = DateFormat(*map(real_format, fmts))
    if case["where"] == "annotation":
        hint = t.Annotated[T, setting]
        loads, dumps = (lambda x: load(x, hint)), (lambda x: dump(x, hint))
    elif case["where"] == "call":
        loads, dumps = (lambda x: load(x, T, settings=[setting])), (lambda x: dump(x, T, settings=[setting]))
    elif case["where"] == "mapper":
        mapper = get_object_mapper()
        mapper.settings.add_global(setting)
        loads, dumps = (lambda x: mapper.deserialize(x, T)), (lambda x: mapper.serialize(x, T))
    elif case["where"] == "setting":
        # Without any conversion around it
        loads, dumps = (lambda x: by_setting(setting.parse, T, x)), (lambda x: by_setting(setting.format, x))
    else:
        # Inside of other types the setting applies, too.
        hint = t.Annotated[t.Optional[T], setting]
        loads, dumps = (lambda x: load(x, hint)), (lambda x: dump(x, hint))
    text = f"\nformats: {setting.formats}"

    value = build(kind, case["value"], case["sub"])
    want = model_write(fmts, kind, value)
    ok, got = attempt(dumps, value)
    check(
        ok == (want is not None) and (not ok or got == want),
        lambda: f"dump({value!r}) gave {got!r}, expected {want!r}{text}",
    )
    if case["where"] != "setting":
        # What is of the type already (some formats of files have dates) is taken as it is.
        ok, got = attempt(loads, value)
        check(ok and same(got, value), lambda: f"load({value!r}) gave {got!r}{text}")
    labels, found = [], False
    for x in case["texts"] + ([want] if want is not None else []):
        if re.search(r"\.[0-9]{7}", x) or re.search(r"[0-9]{7,}", x) and any("%f" in str(f) for f in fmts):
            continue
        expected = model_read(fmts, kind, x)
        ok, got = attempt(loads, x)
        check(
            ok == (expected is not None) and (not ok or same(got, expected)),
            lambda: f"load({x!r}) gave {got!r}, expected {expected!r}{text}",
        )
        found |= ok
        labels.append("accepted" if ok else "refused")
    for nothing in (None, 5, 1.5, True, [], {}):
        if nothing is None and case["where"] == "converter" or case["where"] == "setting":
            continue
        ok, got = attempt(loads, nothing)
        check(not ok, lambda: f"load({nothing!r}) gave {got!r}{text}")
    if want is None:
        labels.append("no format applies")
    labels.append(kind)
    return Info(want is not None and found, labels)


# --- names of formats


@st.composite
def name_cases(draw):
    kind = draw(st.sampled_from(list(TYPES)))
    name = "." + draw(st.one_of(st.sampled_from(["ISO_8601", "JAVA_OFFSET_DATETIME"]).map(mangle), st.text("ISOJAVA_8601x.% ", max_size=9)))
    return {"kind": kind, "value": draw(moments(kind)), "name": name}


def mangle(name):
    return name.lower() if len(name) == 8 else name + "S"


def run_names(case):
    """Text that starts with a dot has to be one of the known names."""

    name, T = case["name"], TYPES[case["kind"]]
    if name in (".ISO_8601", ".JAVA_OFFSET_DATETIME"):
        return Info(False)
    value = build(case["kind"], case["value"])
    text = value.isoformat()
    annotated = t.Annotated[T, DateFormat(name)]
    for hint, many in ((T, False), (annotated, False), (t.List[annotated], True)):
        settings = [DateFormat(name)] if hint is T else None
        for fn, x in ((load, text), (dump, value)):
            x = [x] if many else x
            ok, got = attempt(fn, x, hint, settings=settings)
            check(not ok, lambda: f"{fn.__name__}({x!r}) with the format {name!r} gave {got!r}")
    setting = DateFormat(name)
    for fn, args in ((setting.parse, (T, text)), (setting.format, (value,)), (DateFormat, ())):
        try:
            got = fn(*args)
        except ValueError:
            pass
        else:
            check(False, lambda: f"{fn.__name__}{args} with the format {name!r} gave {got!r}")
    return Info(True, [case["kind"]])


# --- iso


@st.composite
def iso_cases(draw):
    kind = draw(st.sampled_from(list(TYPES)))
    raw = draw(moments(kind))
    v = build(kind, raw)
    date = [""]
    if kind != "time":
        date = [f"{v.year:04}-{v.month:02}-{v.day:02}", f"{v.year:04}{v.month:02}{v.day:02}", f"{v.year:04}-{v.month:02}", f"{v.year:04}"]
    time = [""]
    if kind != "date":
        zones = ["", "Z", "+01:00", "-0130", "+05", "+24:00", "+1", "z", " Z", write_zone(v)]
        hm = f"{v.hour:02}:{v.minute:02}"
        zone = draw(st.sampled_from(zones))
        time = [hm + f":{v.second:02}.{v.microsecond:06}" + zone, hm + zone, f"{hm}:{v.second:02}{zone}", f"{v.hour:02}{zone}", hm.replace(":", "") + zone]
    d, h = draw(st.sampled_from(date)), draw(st.sampled_from(time))
    text = d + ("T" if d and h else "") + h
    if draw(st.booleans()) and text:
        i = draw(st.integers(0, len(text) - 1))
        c = draw(st.sampled_from("0123456789-:T. Z+,W"))
        text = draw(st.sampled_from([text[:i] + c + text[i + 1 :], text[:i] + text[i + 1 :], text[:i] + c + text[i:], text + c, c + text, text[:i]]))
    return {"kind": kind, "value": raw, "text": text, "sub": draw(st.integers(0, 5)) == 0}


OTHERS = {"date": datetime.date(2020, 2, 29), "time": datetime.time(1, 2), "datetime": datetime.datetime(2020, 2, 29, 1, 2)}


def run_iso(case):
    kind = case["kind"]
    T = TYPES[kind]
    value = build(kind, case["value"], case["sub"])
    ok, got = attempt(dump, value, T)
    check(ok and type(got) is str, lambda: f"dump({value!r}) gave {got!r}")
    plain = build(kind, case["value"])
    check(same(read_iso(kind, got), plain), lambda: f"dump({value!r}) gave {got!r}, which is a different moment")
    check(same(T.fromisoformat(got), plain), lambda: f"dump({value!r}) gave {got!r}, which is a different moment")
    ok, back = attempt(load, got, T)
    check(ok and same(back, plain), lambda: f"load({got!r}) gave {back!r}, expected {plain!r}")
    ok, got = attempt(load, value, T)
    check(ok and same(got, value), lambda: f"load({value!r}) gave {got!r}")
    for other, moment in OTHERS.items():
        if other != kind and (other, kind) != ("datetime", "date"):
            for fn in (load, dump):
                ok, got = attempt(fn, moment, T)
                check(not ok, lambda: f"{fn.__name__}({moment!r}, {T}) gave {got!r}")
    x = case["text"]
    if re.search(r"\.[0-9]{7}", x):
        return Info(False, ["fraction too long"])
    expected = read_iso(kind, x)
    for hint in (T, t.Optional[T], t.Annotated[T, DateFormat(".ISO_8601")]):
        ok, got = attempt(load, x, hint)
        check(ok == (expected is not None) and (not ok or same(got, expected)), lambda: f"load({x!r}, {hint}) gave {got!r}, expected {expected!r}")
    return Info(True, [kind, "accepted" if ok else "refused"])


# --- durations

UNITS = ["Y", "M", "W", "D", "H", "M", "S"]


@st.composite
def durations(draw):
    n = st.one_of(st.just(0), st.integers(0, 30), st.integers(0, 10**6))
    raw = draw(st.lists(n, min_size=7, max_size=7))
    parts = [f"{v}{u}" if draw(st.booleans()) else "" for v, u in zip(raw, UNITS)]
    text = "P" + "".join(parts[:4]) + ("T" if any(parts[4:]) or draw(st.integers(0, 9)) == 0 else "") + "".join(parts[4:])
    if draw(st.booleans()):
        i = draw(st.integers(0, len(text)))
        c = draw(st.sampled_from("PTYMWDHS-1.,x +"))
        text = draw(st.sampled_from([text[:i] + c + text[i:], text[:i] + text[i + 1 :], text + c, text[1:], c + text]))
    return {"value": raw, "text": text}


def read_duration(text):
    """The fields; None if the text is certainly none; ... if it is up to the nr.date library."""

    m = re.fullmatch("P(?:([0-9]+)Y)?(?:([0-9]+)M)?(?:([0-9]+)W)?(?:([0-9]+)D)?(?:T(?:([0-9]+)H)?(?:([0-9]+)M)?(?:([0-9]+)S)?)?", text)
    if m and any(m.groups()) and not text.endswith("T"):
        return [int(g or 0) for g in m.groups()]
    if not text.startswith("P") or text.count("T") > 1 or re.search("[^0-9YMWDHST.,P]", text) or "P" in text[1:] or re.search("[0-9]$", text):
        return None
    return ...


def write_duration(v):
    date = "".join(f"{n}{u}" for n, u in zip(v[:4], UNITS[:4]) if n)
    time = "".join(f"{n}{u}" for n, u in zip(v[4:], UNITS[4:]) if n)
    return f"P{date}T{time}" if time else f"P{date}" if date else "PT0S"


def run_durations(case):
    raw = case["value"]
    value = duration(*raw)
    ok, got = attempt(dump, value, duration)
    check(ok and type(got) is str, lambda: f"dump({value!r}) gave {got!r}")
    check(read_duration(got) == raw or not any(raw), lambda: f"dump({value!r}) gave {got!r}, expected {write_duration(raw)}")
    ok, back = attempt(load, got, duration)
    check(ok and type(back) is duration and back == value, lambda: f"load({got!r}) gave {back!r}, expected {value!r}")
    x = case["text"]
    want = read_duration(x)
    ok, got = attempt(load, x, duration)
    if want is None:
        check(not ok, lambda: f"load({x!r}) gave {got!r}")
    elif want is ...:
        check(not ok or type(got) is duration, lambda: f"load({x!r}) gave {got!r}")
    else:
        check(ok and got == duration(*want), lambda: f"load({x!r}) gave {got!r}, expected {want}")
    for wrong in ("P1D", 5, None, datetime.timedelta(1), datetime.date(2020, 1, 1)):
        ok, got = attempt(dump, wrong, duration)
        check(not ok, lambda: f"dump({wrong!r}, duration) gave {got!r}")
    return Info(any(raw), ["refused" if want is None else "library" if want is ... else "accepted"])


PARTS = {
    "formats": Part(format_cases, run_formats, 4000, 200000),
    "names": Part(name_cases, run_names, 300, 5000),
    "iso": Part(iso_cases, run_iso, 4000, 300000),
    "durations": Part(durations, run_durations, 2000, 100000),
}
REGRESSIONS = []
