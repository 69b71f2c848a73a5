"""
The engine shared by every check.

A property (Prop) is a list of facets. A facet is a Hypothesis strategy that
builds a *case* (plain JSON-able data: nothing live, every random choice made
inside Hypothesis) and a function 'run(case, rec)' that drives the real vtelem
code with it and compares against an oracle, raising Violation on a mismatch.

One check is run by several forked shards, each with a seed derived from
VERIF_SEED. A failing case is shrunk by Hypothesis, written to replays/ and can
be re-run without Hypothesis ('check.py ID --replay FILE').
"""

from __future__ import annotations

import collections
import faulthandler
import hashlib
import http.client
import json
import logging
import math
import os
import queue
import shutil
import ssl
import struct
import sys
import tempfile
import threading
import time
import traceback
import types
from typing import Any, Callable, Dict, List, Optional

REPO = "/repo"
PKG = os.path.join(REPO, "vtelem") + os.sep
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(ROOT, "replays")
EVIDENCE = os.path.join(ROOT, "evidence")
CORPUS = os.path.join(ROOT, "corpus")
KNOWN = os.path.join(ROOT, "known_findings.txt")

EXIT_OK, EXIT_VIOLATION, EXIT_ERROR = 0, 1, 2


class Violation(Exception):
    """The property does not hold on this case. 'key' names the root cause."""

    def __init__(self, message: str, key: str = "") -> None:
        super().__init__(message)
        self.message = message
        self.key = key


class HarnessError(Exception):
    """The check itself is at fault (never reported as a violation)."""


class StopSearch(KeyboardInterrupt):
    """Leaves Hypothesis' shrinker when its budget is used up."""


def check(cond: Any, message: str, key: str = "") -> None:
    """Raise a violation when a condition doesn't hold."""
    if not cond:
        raise Violation(message, key)


def same(got: Any, want: Any, what: str, key: str = "") -> None:
    """Raise a violation when two values differ."""
    if got != want:
        raise Violation(f"{what}: got {short(got)}, expected {short(want)}", key)


def short(obj: Any, limit: int = 400) -> str:
    """A bounded representation of some object."""
    text = repr(obj)
    return text if len(text) <= limit else text[:limit] + f"...({len(text)})"


# -- JSON encoding of cases ---------------------------------------------------


def enc(obj: Any) -> Any:
    """Make a case JSON-able."""
    if isinstance(obj, bool) or obj is None or isinstance(obj, (int, str)):
        return obj
    if isinstance(obj, float):
        if math.isfinite(obj):
            return obj
        return {"__f__": repr(obj)}
    if isinstance(obj, (bytes, bytearray)):
        return {"__b__": bytes(obj).hex()}
    if isinstance(obj, (list, tuple)):
        return [enc(x) for x in obj]
    if isinstance(obj, dict):
        if all(isinstance(k, str) and not k.startswith("__") for k in obj):
            return {k: enc(v) for k, v in obj.items()}
        return {"__d__": [[enc(k), enc(v)] for k, v in obj.items()]}
    raise HarnessError(f"case holds a {type(obj)}")


def dec(obj: Any) -> Any:
    """The inverse of enc."""
    if isinstance(obj, list):
        return [dec(x) for x in obj]
    if isinstance(obj, dict):
        if "__b__" in obj:
            return bytes.fromhex(obj["__b__"])
        if "__f__" in obj:
            return float(obj["__f__"])
        if "__d__" in obj:
            return {dec(k): dec(v) for k, v in obj["__d__"]}
        return {k: dec(v) for k, v in obj.items()}
    return obj


def canonical(case: Any) -> str:
    """A canonical rendering of an encoded case."""
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


# -- recording ----------------------------------------------------------------


class Rec:
    """What one case did: labels and whether it was non-trivial."""

    __slots__ = ("labels", "interesting", "tmp", "notes")

    def __init__(self) -> None:
        self.labels: List[str] = []
        self.interesting = False
        self.tmp: Optional[str] = None
        self.notes: Dict[str, int] = {}

    def label(self, *names: str) -> None:
        """Classify this case."""
        self.labels.extend(names)

    def nontrivial(self, cond: Any = True) -> None:
        """Mark this case as non-trivial."""
        if cond:
            self.interesting = True

    def count(self, name: str, amount: int = 1) -> None:
        """Add to a counter that is summed over the run."""
        self.notes[name] = self.notes.get(name, 0) + amount

    def tmpdir(self) -> str:
        """A scratch directory of this case, removed when it ends."""
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix="vtcase_", dir=SCRATCH)
        return tempfile.mkdtemp(dir=self.tmp)

    def close(self) -> None:
        """Remove this case's scratch directory."""
        if self.tmp is not None:
            shutil.rmtree(self.tmp, ignore_errors=True)


SCRATCH: Optional[str] = None


class Facet:
    """One generated check of a property."""

    def __init__(
        self,
        name: str,
        strategy: Callable[[], Any],
        run: Callable[[Any, Rec], None],
        quick: int,
        thorough: Optional[int] = None,
        rule: str = "",
        hang: float = 90.0,
        exhaustive: bool = False,
    ) -> None:
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.rule = rule
        self.hang = hang
        self.exhaustive = exhaustive


class Prop:
    """A property: an identifier and its facets."""

    def __init__(
        self,
        ident: str,
        facets: List[Facet],
        assumptions: Optional[List[str]] = None,
        budget: float = 75.0,
        level: str = "exploration",
        more: int = 1,
    ) -> None:
        self.ident = ident
        self.facets = facets
        for facet in facets:
            # cheap ones can afford that many times as many
            facet.quick *= more
        self.assumptions = assumptions or []
        self.budget = budget
        self.level = level


# -- running one case ---------------------------------------------------------


def in_package(exc: BaseException) -> bool:
    """
    Whether an exception came out of the code under test: a frame of vtelem
    is on the traceback, and no frame of the harness is below it.
    """
    hit = False
    for frame, _ in traceback.walk_tb(exc.__traceback__):
        name = frame.f_code.co_filename
        if name.startswith(PKG):
            hit = True
        elif name.startswith(ROOT + os.sep):
            hit = False
    return hit


def where(exc: BaseException) -> str:
    """The innermost vtelem frame of an exception."""
    result = "?"
    for frame, line in traceback.walk_tb(exc.__traceback__):
        name = frame.f_code.co_filename
        if name.startswith(PKG):
            result = f"{name[len(REPO) + 1:]}:{line} {frame.f_code.co_name}"
    return result


# what working with a result of another form than agreed on leads to
FORM = (TypeError, AttributeError, LookupError, ValueError, ArithmeticError)
# what talking to something that doesn't talk back as agreed on leads to
TALK = (ConnectionError, TimeoutError, EOFError, ssl.SSLError, queue.Empty)
TALK += (http.client.HTTPException,)


def talking(exc: BaseException) -> bool:
    """Whether somebody else didn't do their part of a conversation."""
    module = (type(exc).__module__ or "").split(".")[0]
    return isinstance(exc, TALK) or module == "websockets"


def understood(exc: BaseException) -> Optional[Violation]:
    """What an exception says about the code under test, if anything."""
    kind = type(exc).__name__
    if in_package(exc):
        return Violation(
            f"unexpected {kind}: {short(str(exc))} at {where(exc)}",
            key=f"exception:{kind}",
        )
    kinds = (AssertionError, struct.error) + FORM
    if not isinstance(exc, kinds) and not talking(exc):
        return None
    if isinstance(exc, AttributeError):
        # something isn't there (anymore), which says nothing
        obj = exc.obj
        owner = obj if isinstance(obj, (type, types.ModuleType)) else type(obj)
        name = getattr(owner, "__module__", None) or owner.__name__
        if name.split(".")[0] == "vtelem":
            return None
    if isinstance(exc, TypeError) and "argument" in str(exc):
        return None
    last = traceback.extract_tb(exc.__traceback__)[-1]
    return Violation(
        f"a result doesn't have the form it should have ({kind}: "
        f"{short(str(exc))} at {os.path.basename(last.filename)}:"
        f"{last.lineno})",
        key=f"form:{kind}",
    )


def run_case(facet: Facet, case: Any, rec: Rec) -> None:
    """Run one (encoded) case, an exception from vtelem is a violation."""
    try:
        facet.run(dec(case), rec)
    except (Violation, HarnessError, KeyboardInterrupt):
        raise
    except Exception as exc:  # pylint: disable=broad-except
        found = understood(exc)
        if found is None:
            raise
        raise found from exc
    finally:
        rec.close()


# -- known findings -----------------------------------------------------------


def known_findings(prop: str) -> Dict[str, str]:
    """Lines 'KNOWN property=<id> key=<key> <what>' of the findings file."""
    result: Dict[str, str] = {}
    if not os.path.isfile(KNOWN):
        return result
    with open(KNOWN, encoding="utf-8") as handle:
        for line in handle:
            parts = line.strip().split(" ", 3)
            if (
                len(parts) == 4
                and parts[0] == "KNOWN"
                and parts[1] == f"property={prop}"
                and parts[2].startswith("key=")
            ):
                result[parts[2][4:]] = parts[3]
    return result


# -- shards -------------------------------------------------------------------


class Shard:
    """The state of one worker process."""

    def __init__(
        self, prop: Prop, index: int, total: int, seed: int, tier: str, out: str
    ) -> None:
        self.prop = prop
        self.index = index
        self.total = total
        self.seed = seed
        self.tier = tier
        self.out = out
        self.started = time.monotonic()
        budget = prop.budget if tier == "quick" else prop.budget * 12
        self.deadline = self.started + budget
        self.evaluations = 0
        self.skipped = 0
        self.hashes: set = set()
        self.labels: Dict[str, int] = collections.Counter()
        self.notes: Dict[str, int] = collections.Counter()
        self.samples: Dict[str, List[Any]] = {}
        self.per_facet: Dict[str, Dict[str, int]] = {}
        self.violation: Optional[Dict[str, Any]] = None
        self.known_hit: Dict[str, str] = {}
        self.error: Optional[str] = None
        self.known = known_findings(prop.ident)
        # watchdog
        self.current: Optional[Any] = None
        self.since = 0.0

    # the watchdog

    def watch(self) -> None:
        """Report a case that stopped making progress."""
        while True:
            time.sleep(1.0)
            current = self.current
            if current is None:
                continue
            facet, case, mark = current
            if time.monotonic() - mark < facet.hang:
                continue
            # Stuck? The stacks have to stay put, or the main thread has to
            # stay inside the package all along (an endless loop).
            stuck = True
            inside = True
            first = self.stacks()
            for _ in range(20):
                time.sleep(0.5)
                if self.current is not current:
                    stuck = inside = False
                    break
                now = self.stacks()
                if now != first:
                    stuck = False
                if not any(PKG in x for x in now.get("MainThread", [])):
                    inside = False
            if self.current is not current:
                continue
            in_pkg = any(
                PKG in line for stack in first.values() for line in stack
            )
            if (stuck or inside) and in_pkg:
                lines = []
                for name, stack in self.stacks().items():
                    lines.append(f"thread {name}:")
                    lines.extend(stack[-6:])
                self.fail(
                    facet,
                    case,
                    f"no progress for {facet.hang:.0f} s (deadlock or endless "
                    "loop): " + " | ".join(lines)[:3000],
                    "hang",
                )
                self.write()
                os._exit(0)
            if time.monotonic() - mark > facet.hang * 4:
                self.error = "case hangs outside of the package"
                faulthandler.dump_traceback(file=sys.stderr)
                self.write()
                os._exit(0)

    @staticmethod
    def stacks() -> Dict[str, List[str]]:
        """The stacks of every thread but this one."""
        names = {x.ident: x.name for x in threading.enumerate()}
        result = {}
        for ident, frame in sys._current_frames().items():
            if ident == threading.get_ident():
                continue
            lines = []
            for entry in traceback.extract_stack(frame):
                lines.append(f"{entry.filename}:{entry.lineno} {entry.name}")
            result[names.get(ident, str(ident))] = lines
        return result

    # running

    def fail(self, facet: Facet, case: Any, message: str, key: str) -> None:
        """Note a violation (the smallest case wins)."""
        size = len(canonical(case))
        if self.violation is not None and self.violation["size"] <= size:
            return
        self.violation = {
            "facet": facet.name,
            "case": case,
            "message": message,
            "key": key,
            "size": size,
        }

    def one(self, facet: Facet, case: Any) -> None:
        """Run and account for one encoded case."""
        rec = Rec()
        started = time.monotonic()
        self.current = (facet, case, time.monotonic())
        try:
            run_case(facet, case, rec)
        finally:
            self.current = None
            self.evaluations += 1
            stats = self.per_facet.setdefault(
                facet.name, {"evaluations": 0, "nontrivial": 0, "run_ms": 0}
            )
            stats["evaluations"] += 1
            stats["run_ms"] += round((time.monotonic() - started) * 1000, 2)
            for name in set(rec.labels):
                self.labels[f"{facet.name}:{name}"] += 1
            for name, amount in rec.notes.items():
                self.notes[f"{facet.name}:{name}"] += amount
            if rec.interesting:
                text = facet.name + canonical(case)
                digest = hashlib.sha1(text.encode()).hexdigest()[:16]
                if digest not in self.hashes:
                    self.hashes.add(digest)
                    stats["nontrivial"] += 1
                    kept = self.samples.setdefault(facet.name, [])
                    if len(kept) < 2 and len(text) < 1500:
                        kept.append(case)

    def attempt(self, facet: Facet, case: Any) -> Optional[Violation]:
        """Run a case, handle known findings, return an unlisted violation."""
        try:
            self.one(facet, case)
        except Violation as exc:
            if exc.key and exc.key in self.known:
                self.known_hit[exc.key] = exc.message
                return None
            return exc
        return None

    def corpus(self) -> bool:
        """Run saved cases, true when one of them failed."""
        folder = os.path.join(CORPUS, self.prop.ident)
        if not os.path.isdir(folder):
            return False
        by_name = {x.name: x for x in self.prop.facets}
        for num, name in enumerate(sorted(os.listdir(folder))):
            if not name.endswith(".json") or num % self.total != self.index:
                continue
            with open(os.path.join(folder, name), encoding="utf-8") as handle:
                data = json.load(handle)
            if data["facet"] not in by_name:
                raise HarnessError(f"corpus {name}: no facet {data['facet']}")
            facet = by_name[data["facet"]]
            self.labels[f"{facet.name}:saved-case"] += 1
            exc = self.attempt(facet, data["case"])
            if exc is not None:
                self.fail(facet, data["case"], exc.message, exc.key)
                return True
        return False

    def search(self, facet: Facet) -> None:
        """Generate cases for a facet."""
        import hypothesis  # pylint: disable=import-outside-toplevel
        from hypothesis import HealthCheck, Phase, given, settings

        amount = facet.quick if self.tier == "quick" else facet.thorough
        share = amount // self.total + (1 if self.index < amount % self.total else 0)
        if share == 0:
            return
        state: Dict[str, Any] = {"failed": 0.0}
        shrink_budget = 40.0 if self.tier == "quick" else 120.0

        @hypothesis.seed(self.seed * 1000003 + self.index * 7919 + 17)
        @settings(
            max_examples=share,
            database=None,
            deadline=None,
            derandomize=False,
            print_blob=False,
            report_multiple_bugs=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
        )
        @given(facet.strategy())
        def test(raw: Any) -> None:
            now = time.monotonic()
            if state["failed"]:
                if now - state["failed"] > shrink_budget:
                    raise StopSearch()
            elif now > self.deadline:
                self.skipped += 1
                return
            case = json.loads(json.dumps(enc(raw)))
            exc = self.attempt(facet, case)
            if exc is not None:
                if not state["failed"]:
                    state["failed"] = time.monotonic()
                self.fail(facet, case, exc.message, exc.key)
                raise exc

        try:
            test()
        except (Violation, StopSearch):
            if self.violation is None:
                raise
        except BaseException:  # pylint: disable=broad-except
            # Hypothesis' own errors (e.g. a failure that didn't repeat while
            # shrinking) leave the violation that was seen standing.
            if self.violation is None:
                raise

    def main(self) -> None:
        """Run everything this shard has to do."""
        watcher = threading.Thread(target=self.watch, daemon=True)
        watcher.start()
        try:
            if not self.corpus():
                for num in range(len(self.prop.facets)):
                    # Shards start at different facets: a violation is found
                    # sooner, and a used-up budget hits no facet everywhere.
                    where_ = (num + self.index) % len(self.prop.facets)
                    self.search(self.prop.facets[where_])
                    if self.violation is not None:
                        break
        except BaseException:  # pylint: disable=broad-except
            self.error = traceback.format_exc()[-6000:]
        self.write()

    def write(self) -> None:
        """Hand the results to the parent."""
        data = {
            "evaluations": self.evaluations,
            "skipped": self.skipped,
            "hashes": sorted(self.hashes),
            "labels": dict(self.labels),
            "notes": dict(self.notes),
            "samples": self.samples,
            "per_facet": self.per_facet,
            "violation": self.violation,
            "known_hit": self.known_hit,
            "error": self.error,
        }
        with open(self.out + ".tmp", "w", encoding="utf-8") as handle:
            json.dump(data, handle)
        os.replace(self.out + ".tmp", self.out)


def save_replay(prop: str, violation: Dict[str, Any]) -> str:
    """Write a replay file."""
    os.makedirs(REPLAYS, exist_ok=True)
    text = canonical(violation["case"]) + violation["facet"]
    digest = hashlib.sha1(text.encode()).hexdigest()[:10]
    path = os.path.join(REPLAYS, f"{prop}-{violation['facet']}-{digest}.json")
    with open(path, "w", encoding="utf-8") as handle:
        json.dump(
            {
                "property": prop,
                "facet": violation["facet"],
                "message": violation["message"],
                "key": violation["key"],
                "case": violation["case"],
            },
            handle,
            indent=1,
        )
    return path


def replay(prop: Prop, path: str) -> int:
    """Re-run one saved case."""
    with open(path, encoding="utf-8") as handle:
        data = json.load(handle)
    facet = {x.name: x for x in prop.facets}[data["facet"]]
    shard = Shard(prop, 0, 1, 0, "quick", os.path.join(SCRATCH or "/tmp", "r"))
    threading.Thread(target=replay_watch, args=(shard, path), daemon=True).start()
    exc = shard.attempt(facet, data["case"])
    for key in shard.known_hit:
        print(f"KNOWN-FINDING: property={prop.ident} {shard.known[key]}")
    if exc is not None:
        print(f"{exc.message}")
        print(f"VIOLATION property={prop.ident} replay={path}", flush=True)
        return EXIT_VIOLATION
    print("replay: holds")
    return EXIT_OK


def replay_watch(shard: Shard, path: str) -> None:
    """A replay that hangs is the violation that was saved."""
    while True:
        time.sleep(1.0)
        cur = shard.current
        if cur is not None and time.monotonic() - cur[2] > cur[0].hang:
            print(f"VIOLATION property={shard.prop.ident} replay={path}", flush=True)
            os._exit(EXIT_VIOLATION)


def main(prop: Prop, tier: str, seed: int, shards: int) -> int:
    """Run a check and write its evidence."""
    started = time.monotonic()
    work = tempfile.mkdtemp(prefix="vtcheck_")
    outs = [os.path.join(work, f"{x}.json") for x in range(shards)]
    pids = []
    for index in range(shards):
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                global SCRATCH  # pylint: disable=global-statement
                SCRATCH = os.path.join(work, f"scratch{index}")
                os.makedirs(SCRATCH)
                os.setpgid(0, 0)
                Shard(prop, index, shards, seed, tier, outs[index]).main()
            except BaseException:  # pylint: disable=broad-except
                traceback.print_exc()
                code = 1
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids.append(pid)

    limit = started + (800 if tier == "quick" else 6 * 3600)
    live = dict(zip(pids, outs))
    results: List[Dict[str, Any]] = []
    errors: List[str] = []
    found = None
    settle: Optional[float] = None
    while live:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            if time.monotonic() > limit or (
                settle is not None and time.monotonic() > settle
            ):
                for left in live:
                    try:
                        os.killpg(left, 9)
                    except ProcessLookupError:
                        pass
                if settle is None:
                    errors.append("a shard ran into the overall limit")
                break
            time.sleep(0.02)
            continue
        out = live.pop(pid, None)
        if out is None:
            continue
        # anything the shard left running goes with it
        try:
            os.killpg(pid, 9)
        except (ProcessLookupError, PermissionError):
            pass
        if not os.path.isfile(out):
            errors.append(f"shard {pid} ended without a result ({status})")
            continue
        with open(out, encoding="utf-8") as handle:
            data = json.load(handle)
        results.append(data)
        if data["error"]:
            errors.append(data["error"])
        if data["violation"] is not None and settle is None:
            # others may hold a smaller case: give them a moment
            settle = time.monotonic() + 3.0

    shutil.rmtree(work, ignore_errors=True)

    known = known_findings(prop.ident)
    for data in results:
        viol = data["violation"]
        if viol is not None:
            if found is None or viol["size"] < found["size"]:
                found = viol

    hashes = set()
    labels: Dict[str, int] = collections.Counter()
    notes: Dict[str, int] = collections.Counter()
    facets: Dict[str, Dict[str, int]] = {}
    samples: List[Any] = []
    hit: Dict[str, str] = {}
    for data in results:
        hashes.update(data["hashes"])
        labels.update(data["labels"])
        notes.update(data["notes"])
        hit.update(data["known_hit"])
        for name, stats in data["per_facet"].items():
            into = facets.setdefault(name, {})
            for key, value in stats.items():
                into[key] = into.get(key, 0) + value
    for facet in prop.facets:
        for data in results:
            kept = data["samples"].get(facet.name)
            if kept:
                samples.append({"facet": facet.name, "case": kept[-1]})
                break

    evidence = {
        "property": prop.ident,
        "tier": tier,
        "seed": seed,
        "level": prop.level,
        "coverage": {
            "evaluations": sum(x["evaluations"] for x in results),
            "distinct_nontrivial": len(hashes),
            "rule": " || ".join(f"{x.name}: {x.rule}" for x in prop.facets),
            "samples": samples,
            "per_facet": facets,
            "labels": dict(sorted(labels.items())),
            "counters": dict(sorted(notes.items())),
            "not_run_for_time": sum(x["skipped"] for x in results),
            "shards": shards,
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.monotonic() - started, 3),
        "violations": 1 if found is not None else 0,
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, f"{prop.ident}.json")
    with open(path + ".tmp", "w", encoding="utf-8") as handle:
        json.dump(evidence, handle, indent=1)
        handle.write("\n")
    os.replace(path + ".tmp", path)

    for key in sorted(hit):
        print(f"KNOWN-FINDING: property={prop.ident} {known[key]}")
    if found is not None:
        where_ = save_replay(prop.ident, found)
        print(f"{found['facet']}: {found['message']}")
        print(f"VIOLATION property={prop.ident} replay={where_}", flush=True)
        return EXIT_VIOLATION
    if errors:
        for text in errors:
            print(text, file=sys.stderr)
        return EXIT_ERROR
    cov = evidence["coverage"]
    print(
        f"OK property={prop.ident} tier={tier} seed={seed} "
        f"evaluations={cov['evaluations']} "
        f"distinct_nontrivial={cov['distinct_nontrivial']} "
        f"skipped={cov['not_run_for_time']} wall={evidence['wall_s']}s"
    )
    return EXIT_OK


def quiet() -> None:
    """Keep the code under test from filling the output."""
    logging.disable(logging.CRITICAL)
