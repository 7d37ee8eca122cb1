from hypothesis import strategies as st

import json

from pbt import codec, gen, spec as S
from pbt.util import Info, Part, Violation, check, describe, dump, expect_raw, load

ID = "C01"
TECHNIQUE = "property-based testing: round trip over generated types and values"
RULE = (
    "A case is a generated type (rendered as a Python module with its classes) together with a value of it. Non-trivial: "
    "the type has at least two nodes, and the value is not empty."
)


@st.composite
def cases(draw):
    g = gen.Gen(depth=draw(st.sampled_from([1, 2, 2, 3])))
    s = draw(g.spec())
    return {"spec": s, "raw": draw(gen.raws(s)), "style": draw(gen.styles())}


def run(case):
    s = case["spec"]
    with S.World(s, case["style"]) as w:
        raw = w.normal(s, case["raw"])
        value = w.build(s, case["raw"])
        wire = dump(value, w.hint)
        back = load(wire, w.hint)
        expect_raw(w, s, raw, back, f"load(dump(v)) through {wire!r}")
        try:
            text = json.dumps(wire)
        except (TypeError, ValueError) as exc:
            raise Violation(f"the dumped value {wire!r} can not be encoded as JSON: {exc}")
        back = load(json.loads(text), w.hint)
        expect_raw(w, s, raw, back, f"load(dump(v)) through the JSON text {text}")
    return Info(S.size(s) > 1 and raw not in (None, [], {}), S.kinds(s))


PARTS = {"values": Part(cases, run, 2400, 100000, describe)}
REGRESSIONS = []
