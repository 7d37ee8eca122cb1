"""Drives the generated-input search for one property: shards, seeds, shrinking, replay files and evidence."""

import contextlib
import copy
import hashlib
import importlib
import json
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
from dataclasses import dataclass, field
from typing import Any, Callable, Dict, List, Optional

from pbt import boot, codec

CASE_CPU_SECONDS = 30.0


class Violation(Exception):
    """The property does not hold for the case."""


class Hang(BaseException):
    """A single case used more CPU time than any terminating conversion of its size could."""


class StopRun(BaseException):
    """Ends the run of a shard early (time budget used up, or enough shrinking)."""


@dataclass
class Info:
    """What a check says about a case for which the property held."""

    nontrivial: bool = True
    labels: List[str] = field(default_factory=list)


@dataclass
class Part:
    """One generator together with the check that decides the property for each case it generates."""

    strategy: Callable[[], Any]
    run: Callable[[Any], Info]
    quick: int
    thorough: int
    describe: Optional[Callable[[Any], str]] = None


def load_property(pid: str):
    return importlib.import_module(f"pbt.props.{pid.lower()}")


@contextlib.contextmanager
def cpu_limit(seconds: float = CASE_CPU_SECONDS):
    def handler(signum, frame):
        raise Hang()

    old = signal.signal(signal.SIGVTALRM, handler)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def run_case(part: Part, case: Any) -> Info:
    """Runs the check on a case. Whatever is raised means that the property does not hold: the calls into databind
    that may fail legitimately are guarded by the checks themselves."""

    try:
        with cpu_limit():
            info = part.run(case)
    except Hang:
        raise Violation(f"no result after {CASE_CPU_SECONDS:.0f} s of CPU time") from None
    except Violation:
        raise
    except codec.Unknown:
        # The reference semantics do not say what is to happen.
        return Info(False, ["unspecified"])
    except RecursionError as exc:
        raise Violation("unexpected RecursionError") from exc
    except Exception as exc:
        from hypothesis.errors import HypothesisException

        if isinstance(exc, HypothesisException):
            raise
        where = traceback.extract_tb(exc.__traceback__)[-1]
        tb = "".join(traceback.format_exception(exc)[-6:])
        raise Violation(f"unexpected {type(exc).__name__}: {exc} (at {where.filename}:{where.lineno})\n{tb}") from exc
    return info if isinstance(info, Info) else Info()


def derive_seed(*parts: Any) -> int:
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "big")


def digest(case: Any) -> bytes:
    return hashlib.blake2b(codec.canon(case).encode(errors="surrogatepass"), digest_size=8).digest()


class ShardState:
    def __init__(self) -> None:
        self.parts: Dict[str, Dict[str, Any]] = {}
        self.failure: Optional[Dict[str, Any]] = None
        self.error: Optional[str] = None

    def stats(self, name: str) -> Dict[str, Any]:
        return self.parts.setdefault(
            name, {"evaluations": 0, "nontrivial": 0, "digests": set(), "labels": {}, "samples": []}
        )


def shard_main(pid: str, tier: str, seed: int, shard: int, nshards: int, deadline: float, scale: float, out: str, only: Optional[str]) -> None:
    state = ShardState()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(2500)
        _run_shard(state, pid, tier, seed, shard, nshards, deadline, scale, only)
    except BaseException:
        state.error = traceback.format_exc()
    for st in state.parts.values():
        st["digests"] = [d.hex() for d in st["digests"]]
    tmp = out + ".tmp"
    with open(tmp, "w") as fp:
        json.dump({"parts": state.parts, "failure": state.failure, "error": state.error}, fp)
    os.rename(tmp, out)


def _run_shard(state: ShardState, pid: str, tier: str, seed: int, shard: int, nshards: int, deadline: float, scale: float, only: Optional[str]) -> None:
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    prop = load_property(pid)

    for name, part in prop.PARTS.items():
        if only and name != only:
            continue
        stats = state.stats(name)
        count = part.quick if tier == "quick" else part.thorough
        count = max(1, int(count * scale) // nshards)
        failing: List[Any] = []
        shrink_until = [0.0]

        def test(case: Any) -> None:
            now = time.monotonic()
            if not failing and now > deadline:
                raise StopRun()
            if failing and now > shrink_until[0]:
                raise StopRun()
            if not failing:
                stats["evaluations"] += 1
            try:
                # On a copy: the generators may give out the same mutable value again.
                cpu = time.process_time()
                info = run_case(part, copy.deepcopy(case))
                stats["slowest"] = max(stats.get("slowest", 0.0), round(time.process_time() - cpu, 2))
            except Violation as exc:
                if not failing:
                    shrink_until[0] = now + 45.0
                if "CPU time" in str(exc):
                    shrink_until[0] = min(shrink_until[0], now)
                size = len(codec.canon(case))
                failing.append((size, case, str(exc)))
                raise AssertionError(str(exc)[:200]) from None
            if failing:
                return
            for label in info.labels:
                stats["labels"][label] = stats["labels"].get(label, 0) + 1
            if info.nontrivial:
                stats["nontrivial"] += 1
                d = digest(case)
                if d not in stats["digests"]:
                    stats["digests"].add(d)
                    n = len(stats["digests"])
                    if n in (1, 7, 40, 150, 600, 2500, 10000) and len(stats["samples"]) < 8:
                        text = codec.dumps(case)
                        sample: Dict[str, Any] = {"part": name, "case": text[:1500]}
                        if part.describe is not None:
                            sample["source"] = part.describe(case)[:1500]
                        stats["samples"].append(sample)

        wrapped = given(part.strategy())(test)
        wrapped = settings(
            max_examples=count,
            database=None,
            deadline=None,
            suppress_health_check=list(HealthCheck),
            phases=[Phase.generate, Phase.shrink],
            report_multiple_bugs=False,
            print_blob=False,
        )(wrapped)
        wrapped = hypothesis.seed(derive_seed(seed, pid, name, shard))(wrapped)
        stopped = False
        try:
            wrapped()
        except StopRun:
            stopped = not failing
        except BaseException:
            if not failing:
                raise
        if failing:
            size, case, message = min(failing, key=lambda f: f[0])
            state.failure = {"part": name, "case": codec.enc(case), "message": message, "size": size}
            return
        if stopped:
            stats["stopped_by_time_budget"] = True


def write_json(path: str, data: Any) -> None:
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as fp:
        json.dump(data, fp, indent=1)
        fp.write("\n")
    os.replace(tmp, path)


def self_test() -> int:
    import hypothesis

    props = sorted(f[:-3].upper() for f in os.listdir(os.path.join(boot.ROOT, "pbt", "props")) if f.startswith("c"))
    for pid in props:
        prop = load_property(pid)
        assert prop.ID == pid and prop.PARTS and prop.RULE and prop.TECHNIQUE
        read_known(pid)
    print(f"hypothesis {hypothesis.__version__}; {len(props)} properties: {' '.join(props)}")
    return 0


def warm_up() -> None:
    """Fills the caches of hypothesis before the shards are forked off."""

    from hypothesis import strategies as st
    from hypothesis.internal import charmap

    charmap.charmap()
    charmap.query()
    st.text(max_size=3).validate()
    st.characters(categories=("L", "N")).validate()


def read_known(pid: str):
    """(function in pbt/findings.py, description) of every finding in known_findings.txt that is listed as known for the property."""

    result = []
    with open(os.path.join(boot.ROOT, "known_findings.txt")) as fp:
        for line in fp:
            words = line.split()
            if words[:1] == ["known:"] and words[1] == f"property={pid}":
                assert words[2].startswith("probe="), line
                result.append((words[2][len("probe=") :], " ".join(words[3:])))
    return result


def replay(pid: str, path: str) -> int:
    prop = load_property(pid)
    with open(path) as fp:
        data = json.load(fp)
    part = prop.PARTS[data["part"]]
    case = codec.dec(data["case"])
    if part.describe is not None:
        print(part.describe(case))
    try:
        run_case(part, case)
    except Violation as exc:
        print(exc)
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("the property holds for this case")
    return 0


def report(pid: str, failure: Dict[str, Any]) -> None:
    body = {"property": pid, "part": failure["part"], "message": failure["message"], "case": failure["case"]}
    name = hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(boot.ROOT, "replays", f"{pid}-{name}.json")
    write_json(path, body)
    print(failure["message"][:3000])
    prop = load_property(pid)
    part = prop.PARTS[failure["part"]]
    if part.describe is not None:
        with contextlib.suppress(Exception):
            print(part.describe(codec.dec(failure["case"]))[:3000])
    print("case:", json.dumps(failure["case"])[:3000])
    print(f"VIOLATION property={pid} replay={path}")


def run_property(pid: str, tier: str, seed: int, jobs: int, budget: float, scale: float, only: Optional[str]) -> int:
    start = time.monotonic()
    prop = load_property(pid)
    tmpdir = tempfile.mkdtemp(prefix="pbt-")
    failure: Optional[Dict[str, Any]] = None
    notes: List[str] = []
    regressions = 0
    try:
        from hypothesis.configuration import set_hypothesis_home_dir

        set_hypothesis_home_dir(os.path.join(tmpdir, "hypothesis"))

        # 1. Known findings: re-run the probe of each one.
        known_open = 0
        for probe, what in read_known(pid):
            try:
                getattr(importlib.import_module("pbt.findings"), probe)()
            except Violation:
                known_open += 1
                print(f"KNOWN-FINDING: property={pid} {what}")

        # 2. Fixed cases, e.g. of defects that were repaired.
        if not only:
            for case in prop.REGRESSIONS:
                regressions += 1
                part = prop.PARTS[case["part"]]
                try:
                    run_case(part, case["case"])
                except Violation as exc:
                    failure = {"part": case["part"], "case": codec.enc(case["case"]), "message": str(exc)}
                    break

        # 3. The generated cases.
        results: List[Dict[str, Any]] = []
        if failure is None:
            warm_up()
            ctx = multiprocessing.get_context("fork")
            procs = []
            outs = [os.path.join(tmpdir, f"{i}.json") for i in range(jobs)]
            sys.stdout.flush()
            for i in range(jobs):
                p = ctx.Process(
                    target=shard_main,
                    args=(pid, tier, seed, i, jobs, start + budget, scale, outs[i], only),
                    daemon=True,
                )
                p.start()
                procs.append(p)
            hard_end = start + budget + 150.0
            pending = set(range(jobs))
            while pending and time.monotonic() < hard_end:
                for i in sorted(pending):
                    if not procs[i].is_alive():
                        pending.discard(i)
                        if os.path.exists(outs[i]):
                            with open(outs[i]) as fp:
                                results.append(json.load(fp))
                        else:
                            notes.append(f"shard {i} ended without a result (exit code {procs[i].exitcode})")
                if any(r["failure"] for r in results):
                    # Give the others a moment: they may have found a smaller case.
                    hard_end = min(hard_end, time.monotonic() + 3.0)
                time.sleep(0.02)
            for i in pending:
                procs[i].kill()
                if not any(r["failure"] for r in results):
                    notes.append(f"shard {i} was ended after {time.monotonic() - start:.0f} s")
            failures = [r["failure"] for r in results if r["failure"]]
            if failures:
                failure = min(failures, key=lambda f: f["size"])
            else:
                notes.extend(r["error"] for r in results if r["error"])
    finally:
        shutil.rmtree(tmpdir, ignore_errors=True)

    parts: Dict[str, Any] = {}
    distinct = 0
    evaluations = 0
    samples: List[Any] = []
    for name in prop.PARTS:
        digests = set()
        agg: Dict[str, Any] = {"evaluations": 0, "nontrivial": 0, "labels": {}}
        for r in results:
            st = r["parts"].get(name)
            if st is None:
                continue
            agg["evaluations"] += st["evaluations"]
            agg["nontrivial"] += st["nontrivial"]
            digests.update(st["digests"])
            for k, v in st["labels"].items():
                agg["labels"][k] = agg["labels"].get(k, 0) + v
            if st.get("stopped_by_time_budget"):
                agg["stopped_by_time_budget"] = True
            if len(samples) < 24 and sum(s["part"] == name for s in samples) < 6:
                samples.extend(st["samples"][:3])
        agg["distinct_nontrivial"] = len(digests)
        agg["slowest_case_cpu_seconds"] = max((r["parts"][name].get("slowest", 0.0) for r in results if name in r["parts"]), default=0.0)
        agg["labels"] = dict(sorted(agg["labels"].items()))
        parts[name] = agg
        evaluations += agg["evaluations"]
        distinct += len(digests)

    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": prop.RULE,
            "samples": samples[:24],
            "parts": parts,
            "fixed_cases": regressions,
            "known_findings_confirmed": known_open,
            "shards": jobs,
        },
        "assumptions": getattr(prop, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - start, 3),
        "violations": 1 if failure else 0,
    }
    if failure:
        evidence["coverage"]["samples"].append({"part": failure["part"], "violating_case": json.dumps(failure["case"])[:1500]})
    write_json(os.path.join(boot.ROOT, "evidence", f"{pid}.json"), evidence)

    if failure:
        report(pid, failure)
        return 1
    if notes:
        print("\n".join(notes), file=sys.stderr)
        print(f"{pid}: no answer", file=sys.stderr)
        return 2
    print(f"{pid}: held for {evaluations} generated cases ({distinct} distinct non-trivial) in {evidence['wall_s']} s")
    return 0
