import dataclasses
import decimal
import json
import math
import re
import struct
import typing as t
from fractions import Fraction

from hypothesis import strategies as st

from databind.core import Precision, Priority, Strict
from databind.json import dump, dumps, get_object_mapper, load, loads

from pbt.util import Info, Part, attempt, check

ID = "C24"
TECHNIQUE = "property-based testing: generated numbers, texts and decimal contexts against exact integer and fraction arithmetic and an own rounding"
RULE = (
    "A case is a number (integers of any size, floats of any bits, texts of numbers and of other things), the type it is loaded "
    "as, the strictness, a place (root, list, field, optional, key) and for decimals a precision, rounding, exponent bounds. The result has to denote "
    "the number that exact arithmetic gives, or the number has to be refused where it has none. Non-trivial: the number is not small "
    "(more than 15 digits, fractional, at a rounding or range limit) or had to be refused."
)
ASSUMPTIONS = [
    "Texts with surrounding whitespace, underscores or non-ASCII digits and (in non-strict mode) booleans as decimals may be read or refused.",
    "A text that denotes a number beyond the range of floats may be read as infinity or be refused.",
]

ROUNDINGS = ["ROUND_CEILING", "ROUND_DOWN", "ROUND_FLOOR", "ROUND_HALF_DOWN", "ROUND_HALF_EVEN", "ROUND_HALF_UP", "ROUND_UP", "ROUND_05UP"]
PLACES = ["root", "root", "list", "field", "opt", "dict", "tuple"]


# --- the reference -----------------------------------------------------------------------------------------------------


def int_to_float(v):
    """The float that is closest to *v* (ties to even), None if it is out of range."""

    n = abs(v)
    shift = max(n.bit_length() - 53, 0)
    q, r = n >> shift, n & ((1 << shift) - 1)
    if shift:
        half = 1 << (shift - 1)
        if r > half or (r == half and q & 1):
            q += 1
    if q.bit_length() + shift > 1024:
        return None
    return math.copysign(math.ldexp(float(q), shift), v)


def bits(f):
    return struct.pack(">d", f) if f == f else b"nan"


DEC = re.compile(r"([+-]?)(?:(\d+)(?:\.(\d*))?|\.(\d+))(?:[eE]([+-]?\d+))?\Z", re.A)
SPECIAL = re.compile(r"([+-]?)(inf(?:inity)?|s?nan(\d*))\Z", re.A | re.I)


def parse(text):
    """(sign, coefficient, exponent) of the text of a number, ("F", sign)/("n", sign, digits)/("N", ...) or None."""

    m = DEC.match(text)
    if m:
        whole, frac = (m[2], m[3] or "") if m[2] is not None else ("", m[4])
        return (m[1] == "-", int(whole + frac or "0"), int(m[5] or 0) - len(frac))
    m = SPECIAL.match(text)
    if m:
        if m[2][0] in "iI":
            return ("F", m[1] == "-")
        return ("N" if m[2][0] in "sS" else "n", m[1] == "-", m[3].lstrip("0"))
    return None


def triple(d):
    sign, digits, exp = d.as_tuple()
    text = "".join(map(str, digits))
    if exp == "F":
        return ("F", bool(sign))
    if exp in ("n", "N"):
        return (exp, bool(sign), text.lstrip("0"))
    return (bool(sign), int(text), exp)


def ndigits(n):
    """The number of decimal digits."""

    n = abs(n)
    if n == 0:
        return 1
    guess = int(n.bit_length() * 0.30102999566398119521)
    while 10**guess <= n:
        guess += 1
    while guess > 0 and 10 ** (guess - 1) > n:
        guess -= 1
    return guess


def rounded(coeff, drop, sign, mode):
    """*coeff* without its last *drop* digits, rounded."""

    if drop > ndigits(coeff) + 1:
        q, r, unit = 0, 1 if coeff else 0, 10
    else:
        unit = 10**drop
        q, r = divmod(coeff, unit)
    if r == 0:
        return q
    up = {
        "ROUND_DOWN": False,
        "ROUND_UP": True,
        "ROUND_CEILING": not sign,
        "ROUND_FLOOR": sign,
        "ROUND_HALF_UP": 2 * r >= unit,
        "ROUND_HALF_DOWN": 2 * r > unit,
        "ROUND_HALF_EVEN": 2 * r > unit or (2 * r == unit and q % 2 == 1),
        "ROUND_05UP": q % 10 in (0, 5),
    }[mode]
    return q + up


def in_context(number, p):
    """The number in the decimal context that *p* describes, None if it has none there."""

    default = decimal.DefaultContext
    prec = p["prec"] if p["prec"] is not None else default.prec
    mode = p["rounding"] or default.rounding
    emin = p["Emin"] if p["Emin"] is not None else default.Emin
    emax = p["Emax"] if p["Emax"] is not None else default.Emax
    clamp = bool(p["clamp"])
    if number[0] == "F":
        return number
    if number[0] in ("n", "N"):
        return number if len(number[2]) <= prec - clamp else None
    sign, coeff, exp = number
    etiny, etop = emin - prec + 1, emax - prec + 1
    if coeff == 0:
        return (sign, 0, min(max(exp, etiny), etop if clamp else emax))
    digits = ndigits(coeff)
    if exp + digits - 1 > emax:
        return None
    target = max(exp, etiny, exp + digits - prec)
    if target > exp:
        coeff = rounded(coeff, target - exp, sign, mode)
        exp = target
        if ndigits(coeff) > prec:
            coeff //= 10
            exp += 1
        if coeff and exp + ndigits(coeff) - 1 > emax:
            return None
    if clamp and exp > etop:
        coeff *= 10 ** (exp - etop)
        exp = etop
    return (sign, coeff, exp)


# --- generated numbers -------------------------------------------------------------------------------------------------


@st.composite
def ints(draw):
    return draw(
        st.one_of(
            st.integers(-20, 20),
            st.integers(),
            st.builds(lambda s, k, d: s * (2**k + d), st.sampled_from([1, -1]), st.sampled_from([31, 32, 53, 54, 55, 63, 64, 100, 1023, 1024, 1025]), st.integers(-3, 3)),
            st.builds(lambda k, h, d: (2**52 + h) * 2**k + (2**k >> 1) + d, st.integers(1, 972), st.integers(0, 2**52 - 1), st.integers(-1, 1)),
            st.builds(lambda k, d: 10**k + d, st.sampled_from([15, 16, 17, 22, 23, 28, 29, 308, 309, 400]), st.integers(-1, 1)),
        )
    )


floats = st.one_of(
    st.floats(),
    st.integers(0, 2**64 - 1).map(lambda b: struct.unpack(">d", struct.pack(">Q", b))[0]),
    st.integers(-(2**54), 2**54).map(float),
    st.sampled_from([0.1, 0.5, 1.0, 1.5, -0.0, 2.0**53, 2.0**53 + 2, 1e16, 1e22, 1e23, 1e308, 5e-324, math.inf, -math.inf, math.nan, 0.9999999999999999, 4503599627370495.5, 3.0000000000000004]),
)


@st.composite
def dec_texts(draw):
    sign = draw(st.sampled_from(["", "", "-", "+"]))
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 7, 15, 28, 29, 40]))
    kind = draw(st.integers(0, 5))
    if kind == 0:
        digits = draw(st.sampled_from(["5", "05", "50", "95", "99", "995", "49", "51", "00", "55", "45"])) + draw(st.sampled_from(["", "0", "000", "1", "5", "0001"]))
        digits = draw(st.text("0123456789", max_size=n)) + digits
    elif kind == 1:
        digits = "9" * n + draw(st.sampled_from(["", "5", "4", "9"]))
    else:
        digits = draw(st.text("0123456789", min_size=1, max_size=n))
    cut = draw(st.integers(0, len(digits)))
    if draw(st.booleans()):
        digits = digits[:cut] + "." + digits[cut:]
    if draw(st.integers(0, 2)) == 0:
        digits += draw(st.sampled_from("eE")) + draw(st.sampled_from(["", "+", "-"])) + str(draw(st.one_of(st.integers(0, 30), st.sampled_from([98, 99, 100, 300, 330, 999999, 10**6, 10**17]))))
    return sign + digits


texts = st.one_of(
    dec_texts(),
    dec_texts(),
    ints().map(str),
    floats.map(repr),
    st.sampled_from(["", "abc", "1,5", "1.2.3", "0x10", "1e", "e5", "--1", "+-1", ".", "1/3", "NaN", "-nan", "sNaN", "nan12345678", "Infinity", "-inf", "infinit", "true", "½", "1 2", "12a", "0b1", "NaN1.5", "1e5.5"]),
)


# What decimals and other numbers can be made of in Python although it is no number.
NOT_NUMBERS = [[0, [1, 2], -1], (0, (1, 2), -1), [1, [5], "n"], (0, (), "F"), [], {}, [1], {"a": 1}]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["int", "float", "decimal", "decimal", "str"]))
    value = draw(
        {
            "int": st.one_of(ints(), floats, texts, st.sampled_from(NOT_NUMBERS)),
            "float": st.one_of(ints(), floats, texts, st.sampled_from(NOT_NUMBERS)),
            "decimal": st.one_of(texts, texts, texts, ints(), floats, st.sampled_from(NOT_NUMBERS)),
            "str": st.one_of(ints(), floats),
        }[kind]
    )
    case = {
        "kind": kind,
        "value": value,
        "strict": draw(st.booleans()) if kind != "decimal" or isinstance(value, str) else draw(st.sampled_from([False, False, False, True])),
        "place": draw(st.sampled_from(PLACES + (["key"] if kind == "decimal" else []))),
        "as_text": draw(st.integers(0, 2)) == 0,
        "ambient": draw(st.sampled_from([None, None, {"prec": 2, "rounding": "ROUND_UP"}, {"prec": 1, "capitals": 0, "Emax": 3, "Emin": -3}])),
        "precision": None,
    }
    if kind == "decimal" and draw(st.integers(0, 3)) > 0:
        clamp = draw(st.sampled_from([None, None, None, False, True]))
        case["precision"] = {
            "prec": draw(st.sampled_from([1, 1, 2, 2, 3, 4, 5, 7, 15, 27, 28, 29, None])),
            "rounding": draw(st.sampled_from([None, None] + ROUNDINGS)),
            "Emin": draw(st.sampled_from([None, None, None, 0, -1, -3, -30])),
            "Emax": draw(st.sampled_from([None, None, None, 0, 1, 3, 30, 99])),
            "capitals": draw(st.sampled_from([None, True, False])),
            "clamp": clamp,
        }
        case["where"] = draw(st.sampled_from(["annotation", "annotation", "call", "mapper", "highest"]))
    return case


# --- the check ---------------------------------------------------------------------------------------------------------


def ambient(context):
    return decimal.localcontext(**context) if context else decimal.localcontext()


def run(case):
    kind, value, strict = case["kind"], case["value"], case["strict"]
    py = {"int": int, "float": float, "decimal": decimal.Decimal, "str": str}[kind]
    hint = py
    settings, mapper_settings = [Strict(strict)], []
    p = case["precision"]
    if p:
        precision = Precision(**p)
        if case["where"] == "annotation":
            hint = t.Annotated[py, precision]
        elif case["where"] == "call":
            settings.append(precision)
        elif case["where"] == "mapper":
            mapper_settings.append(precision)
        else:
            hint = t.Annotated[py, Precision(prec=20, Emin=-5, Emax=5)]
            settings.append(Precision(**p, priority=Priority.HIGH))
    place = case["place"]
    if place == "key" and isinstance(value, str) and "snan" in value.lower():
        place = "root"  # (no hash)
    if place == "field":

        @dataclasses.dataclass
        class C:
            before: str
            v: hint  # type: ignore[valid-type]

        C.__annotations__["v"] = hint
        whole: t.Any = C
        wrap, unwrap, form, unform = (lambda x: C("b", x)), (lambda x: x.v), (lambda x: {"before": "b", "v": x}), (lambda x: x["v"])
    elif place == "list":
        whole, wrap, unwrap, form, unform = t.List[hint], (lambda x: [x]), (lambda x: x[0]), (lambda x: [x]), (lambda x: x[0])
    elif place == "tuple":
        whole, wrap, unwrap, form, unform = t.Tuple[str, hint], (lambda x: ("", x)), (lambda x: x[1]), (lambda x: ["", x]), (lambda x: x[1])
    elif place == "dict":
        whole, wrap, unwrap = t.Dict[str, hint], (lambda x: {"": x}), (lambda x: x[""])
        form, unform = wrap, unwrap
    elif place == "key" and isinstance(value, str):
        whole, wrap, unwrap = t.Dict[hint, str], (lambda x: {x: ""}), (lambda x: next(iter(x)))
        form, unform = wrap, unwrap
    else:
        whole = t.Optional[hint] if place == "opt" else hint
        wrap = unwrap = form = unform = lambda x: x

    mapper = get_object_mapper()
    for s in mapper_settings:
        mapper.settings.add_global(s)

    def loading(x):
        with ambient(case["ambient"]):
            if case["as_text"]:
                return mapper.deserialize(json.loads(json.dumps(form(x))), whole, settings=settings)
            return mapper.deserialize(form(x), whole, settings=settings)

    def dumping(x):
        with ambient(case["ambient"]):
            return mapper.serialize(wrap(x), whole, settings=settings)

    # What is the number that the payload denotes?
    if isinstance(value, str):
        number = parse(value)
    elif isinstance(value, (list, tuple, dict)):
        number = None
    elif isinstance(value, float):
        number = ("F", value < 0) if math.isinf(value) else ("n", math.copysign(1, value) < 0, "") if value != value else None
    else:
        number = None

    refuse, want = False, None
    either = False
    if type(value) in (list, tuple, dict):
        refuse = True
    elif kind == "int":
        if type(value) is int:
            want = value
        elif type(value) is float:
            refuse = not (math.isfinite(value) and Fraction(value).denominator == 1)
            want = None if refuse else Fraction(value).numerator
        else:
            plain = re.fullmatch(r"[+-]?\d+", value, re.A)
            refuse = strict or plain is None
            if plain and not refuse:
                number = number or (False, 0, 0)
                want = -number[1] if number[0] else number[1]
    elif kind == "float":
        if type(value) is int:
            want = int_to_float(value)
            refuse = want is None
        elif type(value) is float:
            want = value
        else:
            refuse = strict or number is None or number[0] == "N" or (number[0] == "n" and number[2] != "")
            if not refuse:
                if number[0] == "F":
                    want = -math.inf if number[1] else math.inf
                elif number[0] == "n":
                    want = math.nan
                elif number[1] == 0 or abs(number[2]) > 5000:
                    big = number[1] != 0 and number[2] > 0
                    want = math.inf if big else 0.0
                    either = big
                    want = -want if number[0] else want
                else:
                    exact = Fraction(number[1]) * Fraction(10) ** number[2]
                    try:
                        want = exact.numerator / exact.denominator
                    except OverflowError:
                        want, either = math.inf, True
                    want = -want if number[0] else want
    elif kind == "str":
        refuse = strict
    else:
        if isinstance(value, str):
            refuse = number is None
        else:
            refuse = strict
            if isinstance(value, int):
                number = (value < 0, abs(value), 0)
            elif number is None:
                exact = Fraction(value)
                twos = exact.denominator.bit_length() - 1
                number = (math.copysign(1, value) < 0, abs(exact.numerator) * 5**twos, -twos)
        if not refuse:
            want = in_context(number, p) if p else number
            if not p and number[0] not in ("F", "n", "N"):
                limit = decimal.MAX_EMAX
                if number[1] and (number[2] + ndigits(number[1]) - 1 > limit or number[2] < decimal.MIN_ETINY):
                    either = True
            refuse = want is None

    ok, got = attempt(loading, value)
    text = repr(value)
    if refuse:
        check(not ok, lambda: f"load({text}, {kind}) gave {got!r} instead of an error (strict: {strict}, precision: {p})")
        check(isinstance(got, Exception) and isinstance(str(got), str), "an error without text")
    elif either and not ok:
        pass
    else:
        check(ok, lambda: f"load({text}, {kind}) failed: {got} (strict: {strict}, precision: {p})")
        got = unwrap(got)
        check(type(got) is py, lambda: f"load({text}, {kind}) gave {got!r} of {type(got)}")
        if kind == "int":
            check(got == want, lambda: f"load({text}, int) gave {got!r}, expected {want!r}")
        elif kind == "float":
            check(bits(got) == bits(want), lambda: f"load({text}, float) gave {got!r}, expected {want!r}")
        elif kind == "decimal":
            if not either:
                if value == 0 and type(value) is int and triple(got) == (False, 0, 0):
                    want = triple(got)  # The decimal module does not apply a clamp to the integer 0
                signless = type(value) is float and value != value
                check(triple(got) == want or (signless and got.is_qnan()), lambda: f"load({text}, Decimal) gave {got!r}, expected {want!r} (precision: {p})")
        else:
            check(bits(float(got)) == bits(value) if type(value) is float else int(got) == value, lambda: f"load({text}, str) gave {got!r}")
        # Dumping what was loaded
        ok, wire = attempt(dumping, got)
        check(ok, lambda: f"dump({got!r}, {kind}) failed: {wire}")
        wire = unform(wire)
        if kind == "decimal":
            check(type(wire) is str and (parse(wire) == triple(got) or either), lambda: f"dump({got!r}) gave {wire!r}")
        elif kind == "float":
            check(type(wire) is float and bits(wire) == bits(got), lambda: f"dump({got!r}) gave {wire!r}")
        else:
            check(type(wire) is py and wire == got, lambda: f"dump({got!r}) gave {wire!r}")

    # Dumping a number as the type
    if type(value) in (int, float) and kind in ("int", "float"):
        ok, wire = attempt(dumping, value)
        if kind == "int":
            back = Fraction(unform(wire)) if ok else None
            check(ok == (not refuse), lambda: f"dump({text}, int): {wire!r}")
            check(not ok or (back == Fraction(value)), lambda: f"dump({text}, int) gave {wire!r}")
        else:
            check(ok == (not refuse), lambda: f"dump({text}, float): {wire!r}")
            check(not ok or bits(float(unform(wire))) == bits(want), lambda: f"dump({text}, float) gave {wire!r}")
    if type(value) is str and kind == "decimal" and number is not None and not either:
        # Dumping keeps all of the digits
        try:
            d = decimal.Decimal(value)
        except decimal.DecimalException:
            d = None
        if d is not None:
            ok, wire = attempt(dumping, d)
            check(ok, lambda: f"dump({d!r}) failed: {wire}")
            check(type(unform(wire)) is str and parse(unform(wire)) == triple(d), lambda: f"dump({d!r}) gave {wire!r}")
    interesting = refuse or (isinstance(value, float) and not value.is_integer()) or len(str(value) if not isinstance(value, int) else hex(value)) > 15
    return Info(interesting or bool(p and number and want != number), [kind, type(value).__name__, "refused" if refuse else "accepted", "precision" if p else "no precision"])


# --- JSON texts --------------------------------------------------------------------------------------------------------


@st.composite
def doc_cases(draw):
    return {
        "ints": draw(st.lists(ints(), max_size=4)),
        "floats": draw(st.lists(floats, max_size=4)),
        "decimals": draw(st.lists(dec_texts(), max_size=4)),
    }


@dataclasses.dataclass
class Doc:
    ints: t.List[int]
    floats: t.Tuple[float, ...]
    decimals: t.Dict[str, decimal.Decimal]
    either: t.List[t.Union[int, str]]


def run_doc(case):
    """A whole document as text: every number survives."""

    decimals = {}
    for i, text in enumerate(case["decimals"]):
        try:
            decimals[str(i)] = decimal.Decimal(text)
        except decimal.DecimalException:
            pass
    value = Doc(case["ints"], tuple(case["floats"]), decimals, [x for i in case["ints"] for x in (i, str(i))])
    ok, text = attempt(dumps, value, Doc)
    check(ok, lambda: f"dumps() failed: {text}")
    ok, back = attempt(loads, text, Doc)
    check(ok, lambda: f"loads(dumps()) failed: {back}")
    check(back.ints == value.ints and all(type(x) is int for x in back.ints), lambda: f"{back.ints} != {value.ints}")
    check([bits(x) for x in back.floats] == [bits(x) for x in value.floats], lambda: f"{back.floats} != {value.floats}")
    check({k: triple(d) for k, d in back.decimals.items()} == {k: triple(d) for k, d in decimals.items()}, lambda: f"{back.decimals} != {decimals}")
    check(back.either == value.either and [type(x) for x in back.either] == [type(x) for x in value.either], lambda: f"{back.either} != {value.either}")
    check(dump(back, Doc)["ints"] == case["ints"], "the dumped integers differ")
    check(load(dump(value, Doc), Doc).ints == case["ints"], "the loaded integers differ")
    return Info(bool(case["ints"] or case["floats"] or decimals), ["doc"])


PARTS = {"numbers": Part(cases, run, 6000, 300000), "documents": Part(doc_cases, run_doc, 800, 20000)}
REGRESSIONS = []
