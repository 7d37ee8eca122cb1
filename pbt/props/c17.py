import dataclasses
import importlib
import itertools
import os
import shutil
import sys
import tempfile

from hypothesis import strategies as st
from typeapi import TypeHint

from databind.core import ExtraKeys, Union
from databind.core.union import ChainUnionMembers, EntrypointUnionMembers, ImportUnionMembers, StaticUnionMembers

from pbt import codec
from pbt.util import Info, Part, Violation, attempt, check, dump, load

ID = "C17"
TECHNIQUE = "stateful property-based testing: generated histories of registrations and queries against a model registry"
RULE = (
    "Part histories: registrations (decorators, items, types, type hints, functions that give the type only later), removals, "
    "queries and conversions in any order on one registry; every answer is compared with an ordered dictionary as the model. "
    "Part chains: up to four registries (static, import, entry points of generated distributions) with overlapping ids in a "
    "chain. Part imports: names of classes in generated packages, and names that are none. Non-trivial: at least one "
    "registered member and one query."
)
ASSUMPTIONS = [
    "Types that are reachable in a chain only under an id that an earlier registry uses for another type are not looked up by type."
]

IDS = ["a", "b", "c", "K0", "K1", "K2", "type", ""]
NCLS = 5


def make_classes(style, members=None, discriminator="type", other=None):
    # No dataclass itself: otherwise values that are no member would be converted by its (empty) schema.
    class Base:
        pass

    # Another setting of the class has nothing to do with its members.
    union = Union(members, style, discriminator)
    for setting in [ExtraKeys(True), union] if other == "before" else [union, ExtraKeys(True)] if other == "after" else [union]:
        Base = setting(Base)
    classes = []
    for i in range(NCLS):
        cls = dataclasses.make_dataclass(f"K{i}", [(f"f{i}", int)], bases=(Base,))
        cls.__module__ = __name__
        classes.append(cls)
    return Base, union, classes


def lookup(fn, *args):
    """(True, answer) or (False, None) for a ValueError"""

    try:
        return True, fn(*args)
    except ValueError:
        return False, None


def real(t):
    return t.type if isinstance(t, TypeHint) else t


# --- histories


@st.composite
def histories(draw):
    ids = st.sampled_from(IDS)
    cls = st.integers(0, NCLS - 1)
    op = st.one_of(
        st.tuples(st.just("decorate"), st.one_of(st.none(), ids), cls),
        st.tuples(st.just("register"), st.one_of(st.none(), ids), cls),
        st.tuples(st.just("item"), ids, cls),
        st.tuples(st.just("function"), ids, cls),
        st.tuples(st.just("hint"), ids, cls),
        st.tuples(st.just("function hint"), ids, cls),
        st.tuples(st.just("late"), ids, cls),
        st.tuples(st.just("defined")),
        st.tuples(st.just("del"), ids),
        st.tuples(st.just("by_id"), ids),
        st.tuples(st.just("id_of"), cls),
        st.tuples(st.just("ids")),
        st.tuples(st.just("dump"), cls),
        st.tuples(st.just("load"), ids, cls),
        st.tuples(st.just("outside"), ids, cls),
        st.tuples(st.just("wrong")),
    )
    return {
        "style": draw(st.sampled_from(["nested", "keyed", "flat"])),
        "initial": draw(st.lists(st.tuples(ids, cls), max_size=3, unique_by=lambda p: p[0])),
        "given": draw(st.sampled_from(["dict", "members", "none"])),
        "other": draw(st.sampled_from([None, "before", "after"])),
        "ops": [list(o) for o in draw(st.lists(op, min_size=1, max_size=14))],
    }


class Undefined(Exception):
    pass


def run_history(case):
    ready = [False]
    classes = []
    model = {}  # id: (class number, late)
    source = {}
    # The classes do not exist yet when the registry is made, so it gets functions.
    for i, k in case["initial"]:
        source[i] = lambda k=k: classes[k]
        model[i] = (k, False)
    if case["given"] == "none":
        source, model, members = None, {}, None
    elif case["given"] == "members":
        members = StaticUnionMembers(dict(source))
    else:
        members = source
    Base, union, made = make_classes(case["style"], members, "kind", case.get("other"))
    classes.extend(made)
    registry = union.members
    log = []

    def fail(what):
        raise Violation(f"{what}\nafter: {log}")

    def wire(i, k):
        body = {f"f{k}": 3}
        return {i: body} if case["style"] == "keyed" else {"kind": i, i: body} if case["style"] == "nested" else {"kind": i, **body}

    def first(k):
        """The first id of the class; None if there is none; Undefined if a function in the way can not be called yet."""
        for i, (c, late) in model.items():
            if late and not ready[0]:
                raise Undefined
            if c == k:
                return i
        return None

    def by_id(i):
        if i in model and model[i][1] and not ready[0]:
            return  # what a function raises is its own business
        ok, got = lookup(registry.get_type_by_id, i)
        if i not in model:
            if ok:
                fail(f"get_type_by_id({i!r}) gave {got} though it is not registered")
        elif not ok or real(got) is not classes[model[i][0]]:
            fail(f"get_type_by_id({i!r}) gave {got if ok else 'an error'}, expected {classes[model[i][0]]}")

    def id_of(k):
        try:
            want = first(k)
        except Undefined:
            return
        ok, got = lookup(registry.get_type_id, classes[k])
        if ok != (want is not None) or got != want:
            fail(f"get_type_id(K{k}) gave {got!r}, expected {want!r}")

    def ids():
        got = registry.get_type_ids()
        if list(got) != list(model):
            fail(f"get_type_ids() gave {got}, expected {list(model)}")

    def dumps(k):
        try:
            want = first(k)
        except Undefined:
            return
        ok, got = attempt(dump, classes[k](3), Base)
        if not ok:
            if want is not None:
                fail(f"dump(K{k}) failed: {got}")
        elif want is None:
            fail(f"dump(K{k}) gave {got} though K{k} is not registered")
        elif codec.canon(got) != codec.canon(wire(want, k)):
            fail(f"dump(K{k}) gave {got}, expected {wire(want, k)}")

    def loads(i, k):
        if case["style"] == "nested" and i == "kind":
            return
        if i in model and model[i][1] and not ready[0]:
            return
        ok, got = attempt(load, wire(i, k), Base)
        want = i in model and model[i][0] == k
        if ok != want or want and (type(got) is not classes[k] or vars(got) != {f"f{k}": 3}):
            fail(f"load({wire(i, k)}) gave {got!r}, registered is {model.get(i)}")

    queries = 0
    for o in case["ops"]:
        log.append(o)
        k = o[0]
        if k == "decorate":
            if o[1] == "":
                o = [k, None, o[2]]
            got = Union.register(Base, o[1])(classes[o[2]])
            check(got is classes[o[2]], "register() did not return the class")
            model[o[1] or f"K{o[2]}"] = (o[2], False)
        elif k == "register":
            if o[1] == "":
                o = [k, None, o[2]]
            got = registry.register(o[1])(classes[o[2]])
            check(got is classes[o[2]], "register() did not return the class")
            model[o[1] or f"K{o[2]}"] = (o[2], False)
        elif k == "item":
            registry.members[o[1]] = classes[o[2]]
            model[o[1]] = (o[2], False)
        elif k == "hint":
            registry.members[o[1]] = TypeHint(classes[o[2]])
            model[o[1]] = (o[2], False)
        elif k == "function":
            registry.members[o[1]] = lambda c=o[2]: classes[c]
            model[o[1]] = (o[2], False)
        elif k == "function hint":
            registry.members[o[1]] = lambda c=o[2]: TypeHint(classes[c])
            model[o[1]] = (o[2], False)
        elif k == "late":

            def later(c=o[2]):
                if not ready[0]:
                    raise Undefined
                return classes[c]

            registry.members[o[1]] = later
            model[o[1]] = (o[2], True)
        elif k == "defined":
            ready[0] = True
        elif k == "del":
            registry.members.pop(o[1], None)
            model.pop(o[1], None)
        elif k == "outside":
            # The dictionary that the registry was made from is not the registry.
            if source is not None:
                source[o[1]] = classes[o[2]]
        elif k == "wrong":
            # Not a subclass, or no union: refused without any effect
            for args, cls in (((Base, "a"), int), ((classes[0], "a"), classes[1])):
                try:
                    Union.register(*args)(cls)
                except (TypeError, ValueError, AssertionError):
                    pass
                else:
                    fail(f"Union.register{args} accepted {cls}")
        else:
            queries += 1
            {"by_id": by_id, "id_of": id_of, "ids": ids, "dump": dumps, "load": loads}[k](*o[1:])
    log.append("end")
    for _ in range(2):
        ids()
        for i in IDS + ["nope"]:
            by_id(i)
        for k in range(NCLS):
            id_of(k)
            dumps(k)
            for i in list(model):
                loads(i, k)
        if ready[0]:
            break
        ready[0] = True
    labels = []
    if len({c for c, _ in model.values()}) < len(model):
        labels.append("a type with several ids")
    if any(o[0] == "late" for o in case["ops"]):
        labels.append("late definition")
    if any(o[0] == "del" for o in case["ops"]):
        labels.append("removal")
    return Info(bool(model), labels)


# --- chains

_counter = itertools.count()


class Installation:
    """A directory with importable packages and with distributions that have entry points."""

    def __init__(self):
        self.prefix = f"pbt_inst_{os.getpid()}_{next(_counter)}"

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="pbt-inst-")
        sys.path.insert(0, self.dir)
        importlib.invalidate_caches()
        return self

    def __exit__(self, *args):
        sys.path.remove(self.dir)
        shutil.rmtree(self.dir, ignore_errors=True)
        for name in [n for n in sys.modules if n == self.prefix or n.startswith((self.prefix + ".", self.prefix + "_"))]:
            del sys.modules[name]
        importlib.invalidate_caches()

    def write(self, path, text):
        path = os.path.join(self.dir, path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as fp:
            fp.write(text)

    def distribution(self, name, group, points):
        d = f"{self.prefix}_{name}-1.0.dist-info"
        self.write(f"{d}/METADATA", f"Metadata-Version: 2.1\nName: {self.prefix}_{name}\nVersion: 1.0\n")
        self.write(f"{d}/entry_points.txt", f"[{group}]\n" + "".join(f"{k} = {v}\n" for k, v in points))


CHAIN_IDS = ["a", "b", "c", "d", "e"]


@st.composite
def chains(draw):
    delegates = []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(["dict", "members", "import", "points", "nested"]))
        d = {"kind": kind}
        if kind in ("dict", "members", "points"):
            d["entries"] = [
                list(e)
                for e in draw(
                    st.lists(st.tuples(st.sampled_from(CHAIN_IDS), st.integers(0, NCLS - 1)), max_size=4, unique_by=lambda p: p[0])
                )
            ]
        if kind == "nested":
            d["inner"] = [
                [
                    list(e)
                    for e in draw(
                        st.lists(st.tuples(st.sampled_from(CHAIN_IDS), st.integers(0, NCLS - 1)), max_size=2, unique_by=lambda p: p[0])
                    )
                ]
                for _ in range(2)
            ]
        delegates.append(d)
    return {
        "delegates": delegates,
        "later": draw(st.one_of(st.none(), st.tuples(st.integers(0, 3), st.sampled_from(CHAIN_IDS), st.integers(0, NCLS - 1)))),
        "single": draw(st.booleans()),
        "order": draw(st.permutations(["ids", "by_id", "id_of", "convert"])),
    }


CHAIN_MODULE = """\
import dataclasses
class Base:
    pass
""" + "".join(f"@dataclasses.dataclass\nclass K{i}(Base):\n    f{i}: int\n" for i in range(NCLS))


def run_chain(case):
    with Installation() as inst:
        name = f"{inst.prefix}_mod"
        inst.write(f"{name}.py", CHAIN_MODULE)
        importlib.invalidate_caches()
        mod = importlib.import_module(name)
        classes = [getattr(mod, f"K{i}") for i in range(NCLS)]
        full = {f"{name}.K{i}": i for i in range(NCLS)}
        given, tables, objects = [], [], []
        for j, d in enumerate(case["delegates"]):
            if d["kind"] == "dict":
                given.append({i: classes[k] for i, k in d["entries"]})
                tables.append(dict(d["entries"]))
            elif d["kind"] == "members":
                given.append(StaticUnionMembers({i: classes[k] for i, k in d["entries"]}))
                tables.append(dict(d["entries"]))
            elif d["kind"] == "import":
                given.append("<import>" if j % 2 else ImportUnionMembers())
                tables.append(None)
            elif d["kind"] == "points":
                group = f"{inst.prefix}.group{j}"
                half = len(d["entries"]) // 2
                for x, part in (("x", d["entries"][:half]), ("y", d["entries"][half:])):
                    inst.distribution(f"d{j}{x}", group, [(i, f"{name}:K{k}") for i, k in part])
                given.append("!" + group if j % 2 else EntrypointUnionMembers(group))
                tables.append(dict(d["entries"]))
            else:
                given.append(ChainUnionMembers(*(StaticUnionMembers({i: classes[k] for i, k in x}) for x in d["inner"])))
                merged = dict(d["inner"][1])
                merged = {**dict(d["inner"][0]), **{i: k for i, k in merged.items() if i not in dict(d["inner"][0])}}
                tables.append(merged)
        importlib.invalidate_caches()
        lonely = len(given) == 1 and case["single"]
        union = Union(given[0] if lonely else given, Union.KEYED)
        registry = union.members
        if case["later"] is not None:
            j, i, k = case["later"]
            if j < len(given) and case["delegates"][j]["kind"] == "members":
                given[j].members[i] = classes[k]
                tables[j][i] = k
        Base = union(mod.Base)

        # The model
        table = {}
        for t in tables:
            for i, k in (full if t is None else t).items():
                table.setdefault(i, k)
        text = f"\ndelegates: {case['delegates']}, later: {case['later']}"

        # With several distributions, the order within an entry point group is up to the installation.
        def ids():
            if lonely and tables[0] is None:
                try:
                    registry.get_type_ids()
                except NotImplementedError:
                    return
                raise Violation("expected a NotImplementedError")
            got = list(registry.get_type_ids())
            want, pos = [], 0
            check(len(set(got)) == len(got), lambda: f"get_type_ids() gave {got}{text}")
            seen = set()
            for t, d in zip(tables, case["delegates"]):
                new = [i for i in (t or ()) if i not in seen]
                seen.update(new)
                part = got[pos : pos + len(new)]
                pos += len(new)
                same = set(part) == set(new) if d["kind"] == "points" else part == new
                check(same, lambda: f"get_type_ids() gave {got}, expected {new} from {d}{text}")
            check(pos == len(got), lambda: f"get_type_ids() gave {got}, expected {want}{text}")

        def by_id():
            for i in CHAIN_IDS + list(full) + ["nope", f"{name}.Nope", name]:
                ok, got = lookup(registry.get_type_by_id, i)
                k = table.get(i)
                check(
                    ok == (k is not None) and (k is None or real(got) is classes[k]),
                    lambda: f"get_type_by_id({i!r}) gave {got}, expected K{k}{text}",
                )

        def expected(k):
            """Acceptable ids of a class; None if looking it up is not decided."""
            for t, d in zip(tables, case["delegates"]):
                options = [i for i, c in (full if t is None else t).items() if c == k]
                if d["kind"] == "nested":
                    for inner in d["inner"]:
                        found = [i for i, c in inner if c == k]
                        if found:
                            return None if table[found[0]] != k else [found[0]]
                    continue
                if options:
                    if d["kind"] != "points":
                        options = options[:1]
                    return None if any(table[i] != k for i in options) else options
            return []

        def id_of():
            for k in range(NCLS):
                want = expected(k)
                if want is None:
                    continue
                ok, got = lookup(registry.get_type_id, classes[k])
                check(ok == bool(want) and (not ok or got in want), lambda: f"get_type_id(K{k}) gave {got!r}, expected {want}{text}")
            if any(t is None for t in tables):
                return
            ok, got = lookup(registry.get_type_id, int)
            check(not ok, lambda: f"get_type_id(int) gave {got!r}{text}")
            for c in classes:
                # Another class that goes by the same name is not a member, nor is a class that derives from a member.
                for other in (type(c.__name__, (mod.Base,), {"__module__": name}), type(c.__name__, (c,), {"__module__": name})):
                    ok, got = lookup(registry.get_type_id, other)
                    check(not ok, lambda: f"get_type_id() of another class named {c.__name__} gave {got!r}{text}")

        def convert():
            for k in range(NCLS):
                want = expected(k)
                if want is not None:
                    ok, got = attempt(dump, classes[k](4), Base)
                    check(
                        ok == bool(want) and (not ok or list(got) == [list(got)[0]] and list(got)[0] in want and got[list(got)[0]] == {f"f{k}": 4}),
                        lambda: f"dump(K{k}(4)) gave {got}, expected one of the ids {want}{text}",
                    )
            for i in CHAIN_IDS + list(full):
                for k in range(NCLS):
                    ok, got = attempt(load, {i: {f"f{k}": 4}}, Base)
                    check(
                        ok == (table.get(i) == k) and (not ok or type(got) is classes[k]),
                        lambda: f"load({i!r}: K{k}) gave {got}, registered: {table.get(i)}{text}",
                    )

        checks = {"ids": ids, "by_id": by_id, "id_of": id_of, "convert": convert}
        for c in case["order"]:
            checks[c]()
        for c in case["order"]:
            checks[c]()
        labels = sorted({d["kind"] for d in case["delegates"]})
        if sum(len(t) for t in tables if t) > len(set().union(*(t for t in tables if t), set())):
            labels.append("overlapping ids")
        return Info(bool(table), labels)


# --- imports

PACKAGE = {
    "": "class Top:\n    class Inner:\n        class Deep: pass\n    value = 3\n    def method(self): pass\nAlias = Top\nnumber = 1\n"
    "def function():\n    class Local: pass\n    return Local\nimport sys as system\n",
    "mod": "class Top: pass\nclass Only:\n    class Inner: pass\nfrom {pkg} import Top as Other\n",
    "sub": "class Top: pass\n",
    "sub.leaf": "class Leaf:\n    class Inner: pass\n",
    "broken": "raise RuntimeError('broken')\n",
}
WORDS = ["Top", "Inner", "Deep", "Alias", "number", "function", "Local", "mod", "sub", "leaf", "Leaf", "Only", "Other", "value", "nope", "method", "", "<locals>"]
VALID = ["Top", "Top.Inner", "Top.Inner.Deep", "Alias", "mod.Only.Inner", "mod.Other", "sub.Top", "sub.leaf.Leaf", "sub.leaf.Leaf.Inner", "system.nope"]


@st.composite
def imports(draw):
    return {
        "names": draw(st.lists(st.one_of(st.lists(st.sampled_from(WORDS), max_size=4), st.sampled_from(VALID).map(lambda s: s.split("."))), min_size=1, max_size=6)),
        "other": draw(
            st.lists(
                st.one_of(
                    st.sampled_from(["builtins.int", "builtins", "", ".", "..", "int", "datetime.datetime.max", "collections.abc.Mapping", "os.path", "decimal.Decimal", "builtins.dict.fromkeys", "\0", "no_such_module_x.A", "a b.c"]),
                    st.text("abzé._- /<>0:", max_size=8).map(lambda s: "nosuch_" + s),
                ),
                max_size=4,
            )
        ),
        "warm": draw(st.booleans()),
    }


def run_imports(case):
    with Installation() as inst:
        for name, src in PACKAGE.items():
            path = name.replace(".", "/")
            file = f"{inst.prefix}/{path}/__init__.py" if name in ("", "sub") else f"{inst.prefix}/{path}.py"
            inst.write(os.path.normpath(file), src.replace("{pkg}", inst.prefix))
        importlib.invalidate_caches()
        registry = ImportUnionMembers()
        found = 0

        def oracle(name):
            """The type that a Python program gets by importing and accessing the name"""
            parts = name.split(".")
            for n in range(len(parts), 0, -1):
                prefix = ".".join(parts[:n])
                if all(p.isidentifier() for p in parts[:n]) and importlib.util.find_spec(parts[0]) is not None:
                    try:
                        target = importlib.import_module(prefix)
                    except ModuleNotFoundError:
                        continue
                    try:
                        for p in parts[n:]:
                            target = getattr(target, p)
                    except AttributeError:
                        return None
                    return target if isinstance(target, type) else None
            return None

        names = [".".join([inst.prefix, *p]) for p in case["names"]] + case["other"]
        if case["warm"]:
            importlib.import_module(f"{inst.prefix}.sub.leaf")
        for name in names:
            answers = []
            ok, got = lookup(registry.get_type_by_id, name)
            answers.append((ok, got))
            want = oracle(name)
            check(
                ok == (want is not None) and got is want,
                lambda: f"get_type_by_id({name!r}) gave {got}, expected {want}",
            )
            if ok:
                found += 1
                direct = f"{got.__module__}.{got.__qualname__}"
                ok, back = lookup(registry.get_type_id, got)
                check(ok and back == direct, lambda: f"get_type_id({got}) gave {back!r}")
                ok, again = lookup(registry.get_type_by_id, back)
                check(ok and again is got, lambda: f"get_type_by_id({back!r}) gave {again}, expected {got}")
        pkg = importlib.import_module(inst.prefix)
        local = pkg.function()
        ok, got = lookup(registry.get_type_id, local)
        check(not ok, lambda: f"get_type_id() of a local class gave {got!r}")
        for nothing in (3, "x", None, pkg, pkg.function):
            ok, got = lookup(registry.get_type_id, nothing)
            check(not ok, lambda: f"get_type_id({nothing!r}) gave {got!r}")
        try:
            registry.get_type_ids()
        except NotImplementedError:
            pass
        else:
            raise Violation("get_type_ids() is documented to be unsupported")
        # A module that can not be imported is no unknown name; whichever error it is must not be swallowed.
        try:
            registry.get_type_by_id(f"{inst.prefix}.broken.A")
        except (RuntimeError, ValueError):
            pass
        else:
            raise Violation("a type from a broken module")
        return Info(found > 0, ["found"] if found else [])


PARTS = {
    "histories": Part(histories, run_history, 4000, 200000),
    "chains": Part(chains, run_chain, 1500, 60000),
    "imports": Part(imports, run_imports, 600, 20000),
}
REGRESSIONS = []
