import copy
import dataclasses
import datetime
import decimal
import enum
import itertools
import json
import os
import re
import signal
import sys
import threading
import traceback
import typing as t
import uuid

import typing_extensions as te
from hypothesis import strategies as st

from databind.core import Alias, ConversionError, DateFormat, ExtraKeys, Precision, Priority, SerializeDefaults, Strict
from databind.core.dataclasses import dataclass as extended
from databind.json import dump, get_object_mapper, load

from pbt import boot, codec, gen, spec as S
from pbt.util import Info, Part, Violation, check, describe

ID = "C25"
TECHNIQUE = "property-based testing: generated histories and concurrent conversions, each outcome against the one in a process without history"
RULE = (
    "A case is two or three modules of generated types (with equal class names, and variants of each other) and a history of "
    "conversions, copies of mappers and changes of settings on shared mappers and the functions of the module; conversions "
    "may fail. The outcome of each conversion (result, callbacks, text of the error) has to be the one it has as the first "
    "conversion of a process (a fork that has converted nothing, with the same changes of settings). Non-trivial: at least three conversions, of "
    "which at least one succeeds, with two different outcomes. Part 'schedules': two or three threads convert at the same time, being "
    "switched after generated numbers of executed lines of the library; each outcome has to be the one of the conversion alone. Part 'preemptions': a conversion is interrupted before each of its "
    "lines in turn, for another one with other settings on the same mapper to be done as a whole. Part 'namesakes': classes of various kinds whose names and modules are the same are converted in turn."
)
ASSUMPTIONS = [
    "The caches of the typing module are cleared between the conversions of a history: they take types that differ only in "
    "the order of the members of unions for the same."
]

SETTINGS = {
    "": lambda: [],
    "lax": lambda: [Strict(False)],
    "extra": lambda: [ExtraKeys()],
    "noextra": lambda: [ExtraKeys(False, priority=Priority.HIGH)],
    "short": lambda: [SerializeDefaults(False)],
    "dates": lambda: [DateFormat("%d.%m.%Y", "%H.%M", "%d.%m.%Y %H.%M")],
    "compact": lambda: [DateFormat("%Y%m%d", "%H%M%S", "%Y%m%d%H%M%S"), Precision(3)],
    "precise": lambda: [Precision(6)],
    "both": lambda: [Strict(False), ExtraKeys(), SerializeDefaults(False)],
}


PLAIN = [int, float, bool, str, bytes, decimal.Decimal, datetime.date, datetime.time, datetime.datetime]


def variant(s):
    """A type of similar structure, with the same names: the members of unions reversed, without aliases, with other
    defaults."""

    s = copy.deepcopy(s)
    for x in S.walk(s):
        if x[0] == "union":
            x[1].reverse()
        elif x[0] == "enum":
            x[2] = [[n, []] for n, _ in x[2]]
        elif x[0] in ("dc", "td", "nt"):
            for f in x[2]:
                if "al" in f:
                    del f["al"]
                elif f["n"] + "_" not in [g["n"] for g in x[2]] and "d" not in f:
                    f["al"] = [f["n"] + "-x"]
            if x[0] == "dc":
                x[3]["extra"] = True
        elif x[0] == "list":
            x[0] = "vtuple"
        elif x[0] == "dunion" and len(x[5]) > 1:
            ids = [i for i, _ in x[5]]
            x[5] = [[i, m] for i, (_, m) in zip(ids[1:] + ids[:1], x[5])]
    return s


@st.composite
def cases(draw, threads=False):
    worlds = []
    for i in range(draw(st.sampled_from([1, 2, 2, 3]))):
        g = gen.Gen(depth=draw(st.sampled_from([1, 2, 2, 3])), unions=not threads)
        s = variant(worlds[-1]["spec"]) if worlds and draw(st.booleans()) else draw(g.spec())
        worlds.append({"spec": s, "style": draw(gen.styles())})
    conversions = []
    for _ in range(draw(st.integers(2, 5))):
        i = draw(st.integers(0, len(worlds) - 1))
        w = worlds[i]
        c = {"world": i, "settings": draw(st.sampled_from(["", "", *SETTINGS]))}
        if draw(st.integers(0, 2)) == 0:
            j = draw(st.sampled_from([i, i, i, *range(len(worlds))]))
            c.update(op="dump", other=j, raw=draw(gen.raws(worlds[j]["spec"])))
        else:
            how, payload = draw(gen.payloads(w["spec"], w["style"], valid=4, mutate=4, random=1))
            if len(worlds) > 1 and draw(st.integers(0, 4)) == 0:
                c["world"] = draw(st.integers(0, len(worlds) - 1))
            c.update(op="load", payload=payload)
        conversions.append(c)
    if threads:
        return {"worlds": worlds, "conversions": conversions, "orders": draw(st.lists(st.permutations(range(len(conversions))), min_size=3, max_size=5))}
    vias = ["shared", "shared", "shared", "module", "copy"]
    history = []
    for _ in range(draw(st.integers(3, 9))):
        what = draw(st.integers(0, 9))
        if what == 0:
            history.append(["copy"])
        elif what == 1:
            which = draw(st.sampled_from(["shared", "shared", "copy"]))
            # What was converted before is converted again with the other settings.
            again = draw(st.sampled_from([x[1] for x in history if x[0] == "convert"] or [0]))
            if draw(st.booleans()):
                history.append(["convert", again, which])
            history.append(["config", draw(st.sampled_from(["lax", "extra", "short", "dates", "compact"])), which, draw(st.sampled_from(["global", "local", "local"]))])
            history.append(["convert", again, which])
        else:
            history.append(["convert", draw(st.integers(0, len(conversions) - 1)), draw(st.sampled_from(vias))])
    history.append(["convert", draw(st.integers(0, len(conversions) - 1)), "shared"])
    return {"worlds": worlds, "conversions": conversions, "history": history}


WRITTEN = ["01.02.2020", "10.30", "01.02.2020 10.30", "20200201", "103000", "20200201103000", "2020-02-01", "1.23456", "1", 1.5, 2, True, "true"]


@st.composite
def schedule_cases(draw):
    """Few conversions of small types with different settings, and where to switch between the threads."""

    worlds, conversions = [], []
    for i in range(draw(st.sampled_from([1, 1, 1, 2]))):
        leaves = ["int", "float", "bool", "decimal", "date", "time", "datetime", "str"]
        g = gen.Gen(depth=draw(st.sampled_from([0, 0, 1, 1, 2])), leaves=leaves)
        s = variant(worlds[-1]["spec"]) if worlds and draw(st.booleans()) else S.rename(draw(st.one_of(g.spec(), st.sampled_from(leaves).map(lambda k: [k]))))
        style = draw(gen.styles())
        worlds.append({"spec": s, "style": style})
        raw = draw(gen.raws(s))
        payloads = [gen.wire_of(s, style, raw)]
        payloads.append(draw(st.one_of(st.sampled_from(WRITTEN), gen.mutated(payloads[0], 2, st.one_of(gen.INVALID, st.sampled_from(WRITTEN))))))
        for settings in draw(st.lists(st.sampled_from(sorted(SETTINGS)), min_size=2, max_size=3, unique=True)):
            c = {"world": i, "settings": settings}
            if draw(st.integers(0, 2)) == 0:
                c.update(op="dump", other=i, raw=raw)
            else:
                c.update(op="load", payload=draw(st.sampled_from(payloads)))
            conversions.append(c)
    # How many lines of the library a thread executes before it is the turn of another one.
    gap = st.one_of(st.integers(1, 5), st.integers(1, 5), st.integers(1, 120))
    return {
        "worlds": worlds,
        "conversions": conversions,
        "orders": draw(st.lists(st.permutations(range(len(conversions))), min_size=2, max_size=3)),
        "gaps": draw(st.lists(gap, min_size=1, max_size=40)),
    }


@st.composite
def preemption_cases(draw):
    """Two conversions with different settings, the second being done as a whole at a place within the first."""

    leaves = ["int", "float", "bool", "bytes", "decimal", "date", "time", "datetime", "str", "uuid", "duration"]
    g = gen.Gen(depth=draw(st.sampled_from([0, 0, 0, 1, 1, 2])), leaves=leaves)
    s = S.rename(draw(st.one_of(g.spec(), st.sampled_from(leaves).map(lambda k: [k]))))
    style = draw(gen.styles())
    worlds, conversions = [{"spec": s, "style": style}], []
    raw = draw(gen.raws(s))
    payload = gen.wire_of(s, style, raw)
    path = draw(st.sampled_from(list(gen.places(payload))[-4:]))
    target = payload
    for x in path:
        target = target[x]
    other = draw(st.sampled_from([*WRITTEN, *gen.lookalikes(target)[3:], *gen.lookalikes(target)[3:]]))
    other = gen.replaced(payload, path, other)
    kinds = draw(st.lists(st.sampled_from(sorted(SETTINGS)), min_size=2, max_size=2, unique=True))
    if draw(st.integers(0, 2)) == 0:
        kinds = draw(st.permutations(["lax", ""]))
    for settings in kinds:
        c = {"world": 0, "settings": settings}
        if draw(st.integers(0, 3)) == 0:
            c.update(op="dump", other=0, raw=raw)
        else:
            c.update(op="load", payload=draw(st.sampled_from([payload, other, other])))
        conversions.append(c)
    return {"worlds": worlds, "conversions": conversions, "start": draw(st.integers(0, 999))}


# --- in the child processes --------------------------------------------------------------------------------------------


def outcome(case, worlds, c, mapper):
    """The text of everything that can be observed of a conversion."""

    w = worlds[c["world"]]
    s = w.spec
    settings = SETTINGS[c["settings"]]() or None
    records = len(w.records)
    if c["op"] == "load":
        payload = copy.deepcopy(c["payload"])
        before = codec.canon(payload)
        try:
            if mapper is None:
                value = load(payload, w.hint, settings=settings)
            else:
                value = mapper.deserialize(payload, w.hint, settings=settings)
        except ConversionError as exc:
            text = failure(exc)
        else:
            try:
                text = "loaded " + codec.canon(w.abstract(s, value))
            except S.Mismatch as exc:
                text = f"loaded something else: {type(value)} {exc}"
        if codec.canon(payload) != before:
            text += " (and the payload was changed)"
    else:
        other = worlds[c["other"]]
        value = other.build(other.spec, c["raw"])
        try:
            if mapper is None:
                wire = dump(value, w.hint, settings=settings)
            else:
                wire = mapper.serialize(value, w.hint, settings=settings)
        except ConversionError as exc:
            text = failure(exc)
        else:
            try:
                text = "dumped " + codec.canon(wire)
            except TypeError as exc:
                text = f"dumped something else: {exc}"
    if "orders" not in case:
        text += "".join(map(repr, w.records[records:]))
    return re.sub(r"0x[0-9a-f]+", "0x", text)


def failure(exc):
    text = f"failed {type(exc).__name__} {exc}"
    for e in getattr(exc, "errors", None) or []:
        text += f"\n{e[0] if isinstance(e, tuple) else ''} {type(e).__name__} {e}"
    # The typeapi library does not keep the spelling of aliases when it is used by several threads.
    return re.sub(r"\b(typing|collections)\.(\w)", lambda m: m[2].lower(), text)


def guarded(case, worlds, c, mapper):
    try:
        return outcome(case, worlds, c, mapper)
    except Exception as exc:
        where = traceback.extract_tb(exc.__traceback__)[-1]
        return re.sub(r"0x[0-9a-f]+", "0x", f"unexpected {type(exc).__name__}: {exc} ({where.filename}:{where.lineno})")


def forget():
    import typing

    for clear in getattr(typing, "_cleanups", []):
        clear()


def replay(case, worlds, upto, convert_all):
    """Runs a history: all the conversions, or only the last one."""

    mappers = {"shared": get_object_mapper(), "module": None}
    mappers["copy"] = mappers["shared"].copy()
    texts = []
    for n, step in enumerate(case["history"][: upto + 1]):
        if step[0] == "copy":
            mappers["copy"] = mappers["shared"].copy()
        elif step[0] == "config":
            for x in SETTINGS[step[1]]():
                if step[3] == "global":
                    mappers[step[2]].settings.add_global(x)
                else:
                    for w in worlds:
                        for name, d in w.defs.items():
                            if d[0] == "dc":
                                mappers[step[2]].settings.add_local(w.ns[name], x)
                    for plain in PLAIN:
                        mappers[step[2]].settings.add_local(plain, x)
        elif convert_all or n == upto:
            forget()
            texts.append(guarded(case, worlds, case["conversions"][step[1]], mappers[step[2]]))
    return texts


def concurrently(case, worlds):
    mapper = get_object_mapper()
    results = []
    barrier = threading.Barrier(len(case["orders"]))

    def work(order):
        barrier.wait()
        for _ in range(2):
            for i in order:
                results.append([i, guarded(case, worlds, case["conversions"][i], mapper)])

    sys.setswitchinterval(1e-6)
    threads = [threading.Thread(target=work, args=(order,)) for order in case["orders"]]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    return results


class Scheduler:
    """Lets one thread at a time execute the code of the library, and switches between the threads after the given
    numbers of lines (again and again), so that a schedule can be repeated."""

    def __init__(self, n, gaps):
        self.turns = [threading.Semaphore(0) for _ in range(n)]
        self.running = list(range(n))
        self.gaps = itertools.cycle(gaps)
        self.left = next(self.gaps)
        self.abandoned = False
        self.switches = 0

    def wait(self, i):
        if not self.abandoned and not self.turns[i].acquire(timeout=2):
            # The thread whose turn it is waits for another one (for a lock, for example).
            self.abandoned = True

    def switch(self, i, finished=False):
        if self.abandoned:
            return
        others = [x for x in self.running if x > i] + [x for x in self.running if x < i]
        self.left = next(self.gaps)
        if others:
            self.switches += 1
            self.turns[others[0]].release()
            if not finished:
                self.wait(i)

    def trace(self, i):
        def on_call(frame, event, arg):
            return on_line if frame.f_code.co_filename.startswith(boot.SRC) else None

        def on_line(frame, event, arg):
            if event == "line":
                self.left -= 1
                if self.left <= 0:
                    self.switch(i)
            return on_line

        return on_call


def preempted(case, worlds):
    """The outcomes of two conversions, the second being done (by another thread) before each of the lines that are
    executed for the first one: [[lines, outcome of the first, outcome of the second]]"""

    mapper = get_object_mapper()
    go, done, ended = threading.Semaphore(0), threading.Semaphore(0), []

    def work():
        while True:
            go.acquire()
            if ended:
                return
            answers.append(guarded(case, worlds, case["conversions"][1], mapper))
            done.release()

    def first(at, where=None):
        """Returns the outcome, the number of lines, and whether the other one waited for us (for a lock, for example)."""

        lines, waiting = 0, False

        def on_call(frame, event, arg):
            return on_line if frame.f_code.co_filename.startswith(boot.SRC) and lines < at else None

        def on_line(frame, event, arg):
            nonlocal lines, waiting
            if event == "line":
                lines += 1
                if where is not None:
                    where.setdefault((frame.f_code.co_filename, frame.f_lineno), []).append(lines)
                if lines == at:
                    sys.settrace(None)
                    go.release()
                    waiting = not done.acquire(timeout=0.2)
            return on_line if lines < at else None

        sys.settrace(on_call)
        try:
            outcome = guarded(case, worlds, case["conversions"][0], mapper)
        finally:
            sys.settrace(None)
        if waiting:
            done.acquire()
        return outcome, lines, waiting

    answers, results, waits = [], [], 0
    thread = threading.Thread(target=work)
    thread.start()
    where = {}
    first(10**9, where)
    # The first, the last, and another one of the times that each of the lines is executed.
    places = sorted({y for x in where.values() for y in (x[0], x[-1], x[case["start"] % len(x)])})
    for at in places:
        outcome, lines, waiting = first(at)
        if lines < at:
            break
        results.append([at, outcome, answers.pop()])
        waits += waiting
        if waits > 4:
            break
    ended.append(True)
    go.release()
    thread.join()
    return results


def scheduled(case, worlds):
    mapper = get_object_mapper()
    results = []
    scheduler = Scheduler(len(case["orders"]), case["gaps"])

    def work(n, order):
        scheduler.wait(n)
        sys.settrace(scheduler.trace(n))
        try:
            for _ in range(2):
                for i in order:
                    results.append([i, guarded(case, worlds, case["conversions"][i], mapper)])
        finally:
            sys.settrace(None)
            scheduler.running.remove(n)
            scheduler.switch(n, finished=True)

    threads = [threading.Thread(target=work, args=x) for x in enumerate(case["orders"])]
    for t in threads:
        t.start()
    scheduler.turns[0].release()
    for t in threads:
        t.join()
    return [results, scheduler.switches, scheduler.abandoned]


def forked(fn):
    """The result of the function in a child process."""

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_VIRTUAL, 10)
            data = json.dumps(fn()).encode()
            with os.fdopen(w, "wb") as fp:
                fp.write(data)
        except BaseException:
            traceback.print_exc()
            os._exit(3)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fp:
        data = fp.read()
    _, status = os.waitpid(pid, 0)
    if status:
        raise Violation(f"the conversions did not end orderly (status {status})")
    return json.loads(data)


# --- the checks --------------------------------------------------------------------------------------------------------


class Worlds:
    def __init__(self, case):
        self.worlds = []
        try:
            for w in case["worlds"]:
                self.worlds.append(S.World(w["spec"], w["style"]))
        except BaseException:
            self.__exit__()
            raise

    def __enter__(self):
        return self.worlds

    def __exit__(self, *args):
        for w in self.worlds:
            w.__exit__()


def run(case):
    with Worlds(case) as worlds:
        steps = [n for n, step in enumerate(case["history"]) if step[0] == "convert"]
        texts = forked(lambda: replay(case, worlds, steps[-1], True))
        alone = {}
        configured = 0
        for n, text in zip(steps, texts):
            configured = sum(step[0] != "convert" for step in case["history"][:n])
            key = (tuple(case["history"][n]), configured)
            if key not in alone:
                alone[key] = forked(lambda: replay(case, worlds, n, False))[0]
            if text != alone[key]:
                before = "; ".join(map(str, case["history"][: n + 1]))
                raise Violation(f"conversion {case['conversions'][case['history'][n][1]]}\n  on its own: {alone[key][:600]}\n  after [{before}]: {text[:600]}")
    return Info(len(texts) > 2 and len(set(texts)) > 1 and any(not x.startswith("failed") for x in texts), labels(texts))


def run_threads(case):
    with Worlds(case) as worlds:
        alone = [forked(lambda: guarded(case, worlds, c, get_object_mapper())) for c in case["conversions"]]
        results = forked(lambda: concurrently(case, worlds))
        check(len(results) == 2 * sum(map(len, case["orders"])), "a thread did not finish")
        for i, text in results:
            check(text == alone[i], lambda: f"conversion {case['conversions'][i]}\n  on its own: {alone[i][:600]}\n  with others at the same time: {text[:600]}")
    return Info(len(set(alone)) > 1 and any(not x.startswith("failed") for x in alone), ["threads", *labels(alone)])


def run_schedule(case):
    with Worlds(case) as worlds:
        alone = [forked(lambda: guarded(case, worlds, c, get_object_mapper())) for c in case["conversions"]]
        results, switches, abandoned = forked(lambda: scheduled(case, worlds))
        check(len(results) == 2 * sum(map(len, case["orders"])), "a thread did not finish")
        for i, text in results:
            check(text == alone[i], lambda: f"conversion {case['conversions'][i]}\n  on its own: {alone[i][:600]}\n  with others at the same time: {text[:600]}")
    return Info(switches > 4 and len(set(alone)) > 1, ["schedule", "abandoned" if abandoned else "completed", *labels(alone)])


def run_preemptions(case):
    with Worlds(case) as worlds:
        alone = [forked(lambda: guarded(case, worlds, c, get_object_mapper())) for c in case["conversions"]]
        results = forked(lambda: preempted(case, worlds))
        for at, *texts in results:
            for i, text in enumerate(texts):
                check(
                    text == alone[i],
                    lambda: f"conversion {case['conversions'][i]}\n  on its own: {alone[i][:600]}\n  with the second one after {at} lines of the first: {text[:600]}",
                )
    return Info(len(results) > 10 and alone[0] != alone[1], [f"places: {len(results) // 100 * 100}", *labels(alone)])


def labels(texts):
    return sorted({" ".join(x.split()[:2]) if x.startswith(("failed", "unexpected")) else x.split()[0] for x in texts})


def show(case):
    return "\n\n".join(describe(w) for w in case["worlds"]) + "\n\n" + "\n".join(map(str, case["conversions"])) + "\n" + str(case.get("history") or case.get("orders", "")) + "\n" + str(case.get("gaps", ""))


# --- classes that can not be told apart by their names ----------------------------------------------------------------

HINTS = {"int": int, "str": str, "bool": bool, "ints": t.List[int], "opt": t.Optional[str]}
SAMPLES = {"int": 5, "str": "five", "bool": True, "ints": [1, 2], "opt": None}
OUTER = {
    "": (lambda c: c, lambda x: x),
    "list": (lambda c: t.List[c], lambda x: [x]),
    "dict": (lambda c: t.Dict[str, c], lambda x: {"k": x}),
    "opt": (lambda c: t.Optional[c], lambda x: x),
    "union": (lambda c: t.Union[c, uuid.UUID], lambda x: x),
    "ann": (lambda c: te.Annotated[c, "text"], lambda x: x),
}


@st.composite
def namesake_cases(draw):
    classes = []
    for _ in range(draw(st.integers(2, 4))):
        fields = []
        for n in draw(st.lists(st.sampled_from(["x", "y", "z"]), min_size=1, max_size=3, unique=True)):
            fields.append([n, draw(st.sampled_from(sorted(HINTS))), draw(st.sampled_from(["", "", "al"])), draw(st.sampled_from([False, False, True]))])
        classes.append({"kind": draw(st.sampled_from(["dc", "dc", "dc", "td", "nt", "enum", "ienum", "ext", "new"])), "fields": fields, "extra": draw(st.integers(0, 3)) == 0})
    n = len(classes) - 1
    steps = draw(
        st.lists(
            st.tuples(st.sampled_from(["dump", "load", "load"]), st.integers(0, n), st.integers(0, n), st.sampled_from(sorted(OUTER))).map(list),
            min_size=3,
            max_size=8,
        )
    )
    return {"classes": classes, "steps": steps}


def namesake(c):
    """The class, a value of it and its JSON form"""

    hints = [(n, te.Annotated[HINTS[h], Alias(n + "_")] if al else HINTS[h], d) for n, h, al, d in c["fields"]]
    values = {n: copy.copy(SAMPLES[h]) for n, h, _, _ in c["fields"]}
    wire = {n + "_" * bool(al): copy.copy(SAMPLES[h]) for n, h, al, _ in c["fields"]}
    kind = c["kind"]
    if kind in ("dc", "ext"):
        # The module's dataclasses need no order of the fields.
        ns = {"__annotations__": {n: h for n, h, _ in hints}, "__module__": __name__}
        for (n, h, _, d) in c["fields"]:
            if d:
                ns[n] = dataclasses.field(default_factory=lambda h=h: copy.copy(SAMPLES[h]))
        order = sorted(hints, key=lambda x: x[2])
        if kind == "dc":
            ns["__annotations__"] = {n: h for n, h, _ in order}
            cls = dataclasses.dataclass(type("Same", (), ns))
        else:
            cls = extended(type("Same", (), ns))
        if c["extra"]:
            cls = ExtraKeys()(cls)
        return cls, cls(**values), wire
    if kind == "td":
        return t.TypedDict("Same", {n: h for n, h, _ in hints}, total=not c["extra"]), values, wire  # type: ignore
    if kind == "nt":
        cls = t.NamedTuple("Same", [(n, h) for n, h, _ in hints])  # type: ignore
        return cls, cls(**values), wire
    names = [n for n, *_ in c["fields"]]
    if kind in ("enum", "ienum"):
        base = enum.Enum if kind == "enum" else enum.IntEnum
        cls = base("Same", {n: (2 if c["extra"] else 1) + i for i, n in enumerate(names)}, module=__name__)
        aliases = {n: te.Annotated[int, Alias(n + "_")] for n, _, al, _ in c["fields"] if al}
        cls.__annotations__ = aliases
        return cls, cls[names[0]], (names[0] + "_" * (names[0] in aliases)) if kind == "enum" else cls[names[0]].value
    inner = c["fields"][0][1]
    return t.NewType("Same", HINTS[inner]), copy.copy(SAMPLES[inner]), copy.copy(SAMPLES[inner])


def details(v):
    if isinstance(v, (list, tuple)):
        return [type(v).__name__, *map(details, v)]
    if isinstance(v, dict):
        return {k: details(x) for k, x in v.items()}
    if dataclasses.is_dataclass(v):
        return {"": type(v).__name__, **{k: details(x) for k, x in sorted(vars(v).items())}}
    return [type(v).__name__, str(v)]


def run_namesakes(case):
    made = [namesake(c) for c in case["classes"]]

    def outcome(step, mapper):
        op, i, j, outer = step
        hint, around = OUTER[outer][0](made[i][0]), OUTER[outer][1]
        try:
            if op == "dump":
                return json.dumps(details(mapper.serialize(around(made[j][1]), hint)))
            got = mapper.deserialize(around(made[j][2]), hint)
            inner = got if outer not in ("list", "dict") else next(iter(got.values() if outer == "dict" else got))
            mine = case["classes"][i]["kind"] in ("td", "new") or type(inner) is made[i][0] or inner is None
            return json.dumps([mine, details(got)])
        except ConversionError as exc:
            return f"failed {exc}"

    def together():
        mapper = get_object_mapper()
        return [outcome(step, mapper) for step in case["steps"]]

    texts = forked(together)
    seen = {}
    for n, (step, text) in enumerate(zip(case["steps"], texts)):
        key = tuple(step)
        if key not in seen:
            seen[key] = forked(lambda: outcome(step, get_object_mapper()))
        check(text == seen[key], lambda: f"step {n} of {case['steps']}\n  on its own: {seen[key][:600]}\n  after the others: {text[:600]}\n{case['classes']}")
        if step[0] == "load":
            check(not text.startswith("[false"), lambda: f"step {n} of {case['steps']} gave an object of another class: {text}")
        if step[1] == step[2]:
            check(not text.startswith("failed"), lambda: f"step {n} of {case['steps']}: {text}\n{case['classes']}")
    return Info(len({i for _, i, _, _ in case["steps"]}) > 1 and len(set(texts)) > 1, ["namesakes", *sorted({t.split()[0][:6] if t.startswith("failed") else "ok" for t in texts})])


PARTS = {
    "namesakes": Part(namesake_cases, run_namesakes, 600, 30000, lambda case: "\n".join(map(str, [*case["classes"], *case["steps"]]))),
    "histories": Part(cases, run, 1500, 60000, show),
    "schedules": Part(schedule_cases, run_schedule, 700, 30000, show),
    "preemptions": Part(preemption_cases, run_preemptions, 400, 20000, show),
    "threads": Part(lambda: cases(threads=True), run_threads, 400, 16000, show),
}
REGRESSIONS = []
