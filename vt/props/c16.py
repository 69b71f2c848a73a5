"""C16: a stream writer delivers each frame once to every sink."""

from __future__ import annotations

import os
import threading
import time
from pathlib import Path
from typing import Any, Dict, List, Optional, Tuple

from hypothesis import strategies as st
from vtelem.enums.primitive import Primitive
from vtelem.stream.writer import default_writer
from vtelem.telemetry.environment import TelemetryEnvironment

from vt import gen, sched
from vt.core import Facet, Prop, Rec, check, same, short
from vt.net import until

PATIENCE = 20.0
GRACE = 1.0


class Boom(Exception):
    """A failure nobody expects."""


class Sink:
    """Something frames are written to, which fails as told."""

    def __init__(self, ident: str, spec: Dict[str, Any]) -> None:
        self.spec = spec
        self.chunks: List[bytes] = []
        self.calls = 0
        self.flushes = 0
        if spec["how"] not in ("nameless", "nameless-short"):
            self.name = ident

    def write(self, data: bytes) -> Any:
        """Take a frame, or fail."""
        self.calls += 1
        if self.calls - 1 == self.spec["fail"]:
            how = self.spec["how"]
            if how == "oserror":
                raise BrokenPipeError(32, "broken")
            if how in ("bare", "nameless"):
                raise OSError("no number")
            if how == "closed":
                raise ValueError("write to closed file")
            if how == "odd":
                raise Boom()
            if how in ("short", "nameless-short"):
                return len(data) - 1
            if how == "zero":
                return 0
            if how == "none":
                return None
            if how == "assert":
                raise AssertionError("sink")
        self.chunks.append(bytes(data))
        return len(data)

    def flush(self) -> None:
        """Flush, or fail."""
        self.flushes += 1
        if self.spec["how"] == "flush" and self.calls - 1 == self.spec["fail"]:
            raise OSError(11, "flush")

    def fails_at(self, flush: bool) -> Optional[int]:
        """The write this fails at, if any."""
        if self.spec["how"] in ("never", "flush-only"):
            return None
        if self.spec["how"] == "flush" and not flush:
            return None
        return self.spec["fail"]


HOWS = [
    "oserror",
    "bare",
    "nameless",
    "nameless-short",
    "closed",
    "odd",
    "short",
    "zero",
    "none",
    "assert",
    "flush",
]
sinks = st.fixed_dictionaries(
    {
        "fail": st.integers(0, 5),
        "how": st.one_of(st.just("never"), st.just("never"), st.sampled_from(HOWS)),
        "flush": st.booleans(),
        "closer": st.sampled_from(["none", "record", "record", "raise"]),
        "via": st.sampled_from(
            ["add", "add", "add", "context", "semaphore", "file"]
        ),
        "append": st.booleans(),
    }
)
steps = gen.weighted(
    (4, st.tuples(st.just("stream"), sinks)),
    (2, st.tuples(st.just("queue"), st.booleans())),
    (7, st.tuples(st.just("write"), st.lists(st.integers(0, 9), min_size=1, max_size=4))),
    (2, st.tuples(st.just("remove"), st.integers(0, 7), st.booleans())),
    (1, st.tuples(st.just("unqueue"), st.integers(0, 4), st.booleans())),
    (1, st.tuples(st.just("restart"), st.integers(0, 2))),
)
histories = st.fixed_dictionaries(
    {
        "env": st.sampled_from([True, True, False]),
        "handle": st.sampled_from(["record", "record", "none", "raise", "replace"]),
        "steps": st.lists(steps, min_size=3, max_size=22),
    }
)


class World:
    """A writer, its sinks and what they have to see."""

    def __init__(self, case: Any, rec: Rec) -> None:
        self.case = case
        self.rec = rec
        self.env: Any = None
        # frames are made by an environment of their own
        self.source = TelemetryEnvironment(1400, app_id_basis=0.5)
        self.chans = [
            self.source.add_channel(f"c{x}", Primitive.UINT32, 0.0)
            for x in range(10)
        ]
        self.number = 0
        if case["env"]:
            self.env = TelemetryEnvironment(
                256, metrics_rate=1.0, app_id_basis=0.5
            )
        self.errors: List[int] = []
        self.closed: List[Any] = []
        handle = None if case["handle"] == "none" else self.on_error
        self.writer, self.queue = default_writer(
            "writer", error_handle=handle, env=self.env
        )
        self.streams: Dict[int, Dict[str, Any]] = {}
        self.queues: Dict[int, Dict[str, Any]] = {}
        self.want_errors: List[int] = []
        self.want_closed: List[Any] = []
        self.counts = {
            "stream_writes": 0,
            "bytes_written": 0,
            "stream_count": 0,
            "queue_writes": 0,
            "queue_count": 0,
        }
        self.extra: List[Sink] = []
        self.failed = 0

    def on_error(self, ident: int) -> None:
        """The writer says that a stream failed."""
        self.errors.append(ident)
        if self.case["handle"] == "raise":
            raise Boom("handler")
        if self.case["handle"] == "replace":
            sink = Sink("spare", {"how": "never", "fail": 0})
            new = self.writer.add_stream(sink)
            self.extra.append(sink)
            self.streams[new] = {
                "sink": sink,
                "spec": {"closer": "none", "via": "add", "flush": False},
                "want": [],
                "live": True,
                "born": ident,
            }

    def closer(self, tag: Any, how: str) -> Any:
        """A callback for a closed stream."""
        if how == "none":
            return None

        def closing() -> None:
            self.closed.append(tag)
            if how == "raise":
                raise Boom("closer")

        return closing

    def frame(self, amount: int) -> Any:
        """A new frame."""
        for chan in self.chans[: amount + 1]:
            self.number += 1
            self.source.set_now(chan, self.number)
        for chan in self.chans:
            self.source.set_channel_rate(
                chan, 0.0 if chan in self.chans[: amount + 1] else 1e9
            )
        self.source.advance_time(1.0)
        self.source.dispatch_now(should_log=False)
        frame = self.source.frame_queue.get(timeout=5)
        check(self.source.frame_queue.empty(), "several frames")
        return frame

    # operations

    def add(self, spec: Dict[str, Any]) -> None:
        """Add a stream."""
        tag = len(self.streams)
        sink: Any = Sink(f"sink{tag}", spec)
        closer = self.closer(tag, spec["closer"])
        entry: Dict[str, Any] = {
            "sink": sink,
            "spec": spec,
            "want": [],
            "live": True,
            "tag": tag,
            "before": b"",
        }
        via = spec["via"]
        before = set(self.writer.streams)
        if via == "add":
            ident = self.writer.add_stream(sink, closer, spec["flush"])
        elif via == "semaphore":
            ident, entry["sem"] = self.writer.add_semaphore_stream(sink)
        else:
            if via == "context":
                context = self.writer.stream_added(sink, closer, spec["flush"])
            else:
                path = Path(self.rec.tmpdir(), "out.bin")
                if tag % 2:
                    path.write_bytes(b"before")
                    entry["before"] = b"before" if spec["append"] else b""
                entry["path"] = path
                context = self.writer.add_file(
                    path, spec["flush"], spec["append"]
                )
            context.__enter__()
            entry["context"] = context
            new = set(self.writer.streams) - before
            same(len(new), 1, "streams that were added")
            ident = new.pop()
        check(ident not in self.streams, f"stream id {ident} is used again")
        self.streams[ident] = entry
        self.counts["stream_count"] += 1

    def flushes(self, entry: Dict[str, Any]) -> bool:
        """Whether the writer flushes a stream."""
        return entry["spec"]["flush"] and entry["spec"]["via"] != "semaphore"

    def leave(self, entry: Dict[str, Any], call: bool = True) -> None:
        """What the model says about a removed stream."""
        entry["live"] = False
        self.counts["stream_count"] -= 1
        spec = entry["spec"]
        if spec["via"] in ("add", "context") and spec["closer"] != "none" and call:
            self.want_closed.append(entry["tag"])
        if spec["via"] == "semaphore" and call:
            entry["released"] = True

    def write(self, amounts: List[int]) -> None:
        """Hand frames to the writer."""
        # the model goes first: sinks that fail are removed after a frame
        for amount in amounts:
            frame = self.frame(amount)
            raw = bytes(frame.raw[0])
            chunk = len(raw).to_bytes(4, "big") + raw
            self.writing(chunk, frame)
            self.queue.put(frame)

    def writing(self, chunk: bytes, frame: Any) -> None:
        """The model of writing a frame."""
        for ident, entry in list(self.streams.items()):
            if not entry["live"] or entry.get("born") is not None:
                continue
            if entry["spec"]["via"] == "file":
                entry["want"].append(chunk)
            else:
                at = entry["sink"].fails_at(self.flushes(entry))
                entry["writes"] = entry.get("writes", 0) + 1
                if at is not None and entry["writes"] - 1 == at:
                    self.failed += 1
                    if entry["spec"]["how"] == "flush":
                        entry["want"].append(chunk)
                    if self.case["handle"] != "none":
                        self.want_errors.append(ident)
                        if self.case["handle"] == "replace":
                            self.counts["stream_count"] += 1
                    self.leave(entry)
                    continue
                entry["want"].append(chunk)
            self.counts["stream_writes"] += 1
            self.counts["bytes_written"] += len(chunk)
        for entry in self.queues.values():
            if entry["live"]:
                entry["want"].append(frame)
                self.counts["queue_writes"] += 1

    def remove(self, pick: int, call: bool) -> None:
        """Remove a stream."""
        mine = [x for x in self.streams if self.streams[x].get("born") is None]
        if not mine:
            same(self.writer.remove_stream(pick), False, "removing nothing")
            return
        ident = mine[pick % len(mine)]
        entry = self.streams[ident]
        context = entry.pop("context", None)
        if context is not None:
            self.closing(context, entry)
            return
        live = entry["live"]
        raises = (
            live
            and call
            and entry["spec"]["closer"] == "raise"
            and entry["spec"]["via"] in ("add", "context")
        )
        if live:
            self.leave(entry, call)
        try:
            result = self.writer.remove_stream(ident, call)
        except Boom:
            check(raises, "an error of a closer nobody called")
        else:
            check(not raises, "an error of a closer is swallowed")
            same(result, live, f"removing stream {ident}")

    def closing(self, context: Any, entry: Dict[str, Any]) -> None:
        """Leave a stream's context."""
        call = entry["live"]
        if entry["live"]:
            self.leave(entry, entry["spec"]["via"] == "context")
        try:
            context.__exit__(None, None, None)
        except Boom:
            check(call and entry["spec"]["closer"] == "raise", "a stray error")
        if "path" in entry:
            self.file(entry)

    def file(self, entry: Dict[str, Any]) -> None:
        """Compare a file that was written."""
        got = entry["path"].read_bytes()
        want = entry["before"] + b"".join(entry["want"])
        check(
            got == want,
            f"a file holds {len(got)} bytes instead of {len(want)}, "
            f"or different ones",
        )
        entry["done"] = True

    def unqueue(self, pick: int, inject: bool) -> None:
        """Remove a queue."""
        if not self.queues:
            same(self.writer.remove_queue(pick), False, "removing no queue")
            return
        ident = list(self.queues)[pick % len(self.queues)]
        entry = self.queues[ident]
        same(
            self.writer.remove_queue(ident, inject),
            entry["live"],
            f"removing queue {ident}",
        )
        if entry["live"]:
            entry["live"] = False
            self.counts["queue_count"] -= 1
            if inject:
                entry["want"].append(None)

    # judging

    def mismatch(self) -> str:
        """What isn't as it should be, if anything."""
        for ident, entry in self.streams.items():
            if entry["spec"]["via"] == "file" or entry.get("born") is not None:
                continue
            got = list(entry["sink"].chunks)
            if got != entry["want"]:
                return (
                    f"stream {ident} ({entry['spec']['how']}) got "
                    f"{len(got)} chunks of {[len(x) for x in got][:12]} "
                    f"bytes, expected {[len(x) for x in entry['want']][:12]}"
                )
            if self.flushes(entry):
                want = len(entry["want"])
                if entry["sink"].flushes != want:
                    return (
                        f"stream {ident} was flushed {entry['sink'].flushes} "
                        f"times for {want} frames"
                    )
            sem = entry.get("sem")
            if sem is not None:
                value = sem._value  # pylint: disable=protected-access
                if value != (1 if entry.get("released") else 0):
                    return f"the semaphore of stream {ident} is {value}"
        for ident, entry in self.queues.items():
            got = list(entry["queue"].queue)
            if [id(x) for x in got] != [id(x) for x in entry["want"]]:
                return (
                    f"queue {ident} holds {len(got)} frames, expected "
                    f"{len(entry['want'])}, or others"
                )
        if sorted(self.errors) != sorted(self.want_errors):
            return (
                f"streams {self.errors} were reported, "
                f"expected {self.want_errors}"
            )
        if sorted(self.closed) != sorted(self.want_closed):
            return (
                f"closers {self.closed} were called, expected "
                f"{self.want_closed}"
            )
        if self.env is not None and self.case["handle"] != "replace":
            for name, want in self.counts.items():
                got = self.env.get_metric(f"writer.{name}")
                if got != want:
                    return f"metric {name} is {got} instead of {want}"
        return ""

    def settle(self, when: str) -> None:
        """Everything handed to the writer has been handled as it should."""
        start = time.monotonic()
        drained = None
        pause = 0.0001
        while True:
            text = self.mismatch()
            now = time.monotonic()
            if not text and (
                self.queue.unfinished_tasks == 0
                or (self.queue.empty() and now - start > GRACE)
            ):
                return
            if self.queue.empty() and self.queue.unfinished_tasks == 0:
                drained = drained if drained is not None else now
            thread = self.writer.thread
            if thread is not None and not thread.is_alive():
                drained = drained if drained is not None else now
                text = "the writer ended: " + text
            if text and (
                drained is not None and now - drained > GRACE
                or now - start > PATIENCE
            ):
                check(False, f"{when}: {text}", "delivery")
            time.sleep(pause)
            pause = min(pause * 2, 0.01)

    def stop(self) -> None:
        """Stop the writer."""
        check(self.writer.stop(), "the writer doesn't stop", "stop")
        check(self.queue.empty(), "frames are left after stopping")


def run(case: Any, rec: Rec) -> None:
    """A history of sinks and frames."""
    world = World(case, rec)
    check(world.writer.start(), "the writer doesn't start")
    writes = 0
    try:
        for num, step in enumerate(case["steps"]):
            if step[0] == "stream":
                world.add(step[1])
            elif step[0] == "queue":
                name = f"q{num}" if step[1] else None
                ident, queue = world.writer.registered_queue(name, 1000)
                check(ident not in world.queues, f"queue id {ident} again")
                world.queues[ident] = {"queue": queue, "want": [], "live": True}
                world.counts["queue_count"] += 1
            elif step[0] == "write":
                world.write(step[1])
                writes += len(step[1])
                world.settle(f"after step {num}")
            elif step[0] == "remove":
                world.remove(step[1], step[2])
            elif step[0] == "unqueue":
                world.unqueue(step[1], step[2])
            else:
                world.stop()
                # frames that arrive while stopped are written later on
                frames = [world.frame(x) for x in range(step[1])]
                for frame in frames:
                    raw = bytes(frame.raw[0])
                    world.writing(len(raw).to_bytes(4, "big") + raw, frame)
                    world.queue.put(frame)
                check(world.writer.start(), "the writer doesn't start again")
                world.settle(f"after restarting in step {num}")
        world.stop()
        world.settle("after stopping")
        for entry in list(world.streams.values()):
            context = entry.pop("context", None)
            if context is not None:
                world.closing(context, entry)
    finally:
        world.queue.put(None)
    rec.count("frames", writes)
    rec.count("failed-sinks", world.failed)
    rec.label(f"handle-{case['handle']}")
    if any("released" in x for x in world.streams.values()):
        rec.label("semaphore-released")
    if world.failed:
        rec.label("failed")
    rec.nontrivial(writes > 2 and len(world.streams) > 1)


# -- interleavings ------------------------------------------------------------

races = st.fixed_dictionaries(
    {
        "frames": st.integers(1, 2),
        "env": st.sampled_from([False, False, True]),
        "bad": st.one_of(
            st.none(),
            st.tuples(st.integers(0, 1), st.sampled_from(["oserror", "odd", "short"])),
        ),
        "other": st.sampled_from(
            ["add", "remove", "remove-bad", "queue", "unqueue", "context"]
        ),
        "swap": st.booleans(),
        "fine": st.sampled_from([False, False, True]),
        "picks": st.lists(
            st.floats(0, 1, exclude_max=True), min_size=20, max_size=20
        ),
    }
)


class Scene:
    """A writer with two good sinks, one that may fail and two queues."""

    def __init__(self, case: Any) -> None:
        self.case = case
        self.env: Any = None
        if case["env"]:
            self.env = TelemetryEnvironment(
                256, metrics_rate=1.0, app_id_basis=0.5
            )
        self.errors: List[int] = []
        self.closed: List[str] = []
        self.writer, self.queue = default_writer(
            "writer", error_handle=self.errors.append, env=self.env
        )
        bad = case["bad"]
        good = {"how": "never", "fail": 0}
        self.sinks = {
            "first": Sink("first", good),
            "victim": Sink("victim", good),
            "bad": Sink(
                "bad", good if bad is None else {"how": bad[1], "fail": bad[0]}
            ),
            "last": Sink("last", good),
            "new": Sink("new", good),
        }
        self.ids = {
            x: self.writer.add_stream(
                self.sinks[x], lambda x=x: self.closed.append(x)
            )
            for x in ("first", "victim", "bad", "last")
        }
        self.queues = [self.writer.registered_queue() for _ in range(2)]
        self.added: List[Any] = []
        self.data: List[bytes] = []
        source = TelemetryEnvironment(256, app_id_basis=0.5)
        chan = source.add_channel("a", Primitive.UINT8, 0.0)
        self.frames = []
        for num in range(case["frames"]):
            source.set_now(chan, num)
            source.dispatch(float(num), False)
            frame = source.frame_queue.get(timeout=5)
            self.frames.append(frame)
            self.data.append(
                len(frame.raw[0]).to_bytes(4, "big") + bytes(frame.raw[0])
            )
            self.queue.put(frame)
        self.queue.put(None)

    def other(self) -> Any:
        """What happens meanwhile."""
        kind = self.case["other"]
        if kind == "add":
            return self.writer.add_stream(
                self.sinks["new"], lambda: self.closed.append("new")
            )
        if kind == "context":
            with self.writer.stream_added(
                self.sinks["new"], lambda: self.closed.append("new")
            ):
                pass
            return None
        if kind == "remove":
            return self.writer.remove_stream(self.ids["victim"])
        if kind == "remove-bad":
            return self.writer.remove_stream(self.ids["bad"])
        if kind == "queue":
            self.added.append(self.writer.registered_queue())
            return None
        return self.writer.remove_queue(self.queues[0][0])

    def judge(self, result: Any, where: str) -> None:
        """Whatever the schedule, this has to be true."""
        kind = self.case["other"]
        data = self.data
        bad = self.case["bad"]

        def fine(cond: Any, text: str) -> None:
            """Complain about a schedule."""
            check(cond, f"{kind}, interrupted at {where}: {text}", "race")

        for name in ("first", "last", "victim", "new"):
            got = self.sinks[name].chunks
            if name == "new":
                if kind == "add":
                    ok = got == data[len(data) - len(got) :]
                elif kind == "context":
                    start = data.index(got[0]) if got else 0
                    ok = got == data[start : start + len(got)]
                else:
                    ok = not got
            elif name == "victim" and kind == "remove":
                ok = got == data[: len(got)]
            else:
                ok = got == data
            fine(ok, f"{name} got {len(got)} of {len(data)} frames")
        got = self.sinks["bad"].chunks
        fine(got == data[: len(got)], "the failing sink got other data")
        failing = bad is not None and bad[0] < len(data)
        gone = []
        if kind == "remove":
            gone.append("victim")
        if kind == "context":
            gone.append("new")
        if kind == "remove-bad" or failing:
            gone.append("bad")
        fine(sorted(self.closed) == sorted(gone), f"closed: {self.closed}")
        want: Any = [self.ids["bad"]] if failing else []
        if kind == "remove-bad":
            fine(len(self.errors) <= len(want), f"reported: {self.errors}")
            fine(
                result or self.errors == want,
                "removed by the writer, but not reported",
            )
            fine(
                result or failing, "a registered stream couldn't be removed"
            )
        else:
            fine(self.errors == want, f"reported: {self.errors}")
        if kind in ("remove", "unqueue"):
            fine(result is True, f"removing returned {result}")
        streams = 4 - len([x for x in gone if x != "new"]) + (kind == "add")
        fine(
            len(self.writer.streams) == streams,
            f"{len(self.writer.streams)} streams instead of {streams}",
        )
        queued = 0
        for num, (_, queue) in enumerate(self.queues + self.added):
            items = list(queue.queue)
            frames = [x for x in items if x is not None]
            queued += len(frames)
            nones = len(items) - len(frames)
            spots = [self.frames.index(x) for x in frames]
            if num == 0 and kind == "unqueue":
                ok = nones == 1 and spots == list(range(len(spots)))
            elif num == 2:
                ok = not nones and spots == list(
                    range(len(data) - len(spots), len(data))
                )
            else:
                ok = not nones and spots == list(range(len(data)))
            fine(ok, f"queue {num} holds frames {spots} and {nones} ends")
        writes = sum(len(x.chunks) for x in self.sinks.values())
        size = sum(len(c) for x in self.sinks.values() for c in x.chunks)
        for name, count in (
            ("stream_count", streams),
            ("stream_writes", writes),
            ("bytes_written", size),
            ("queue_writes", queued),
            ("queue_count", 2 + (kind == "queue") - (kind == "unqueue")),
        ):
            if self.env is None:
                break
            seen = self.env.get_metric(f"writer.{name}")
            fine(seen == count, f"{name} is {seen} instead of {count}")


def run_race(case: Any, rec: Rec) -> None:
    """Adding and removing sinks while frames are written."""

    def pair(scene: Scene) -> Tuple[Any, Any]:
        """Both operations."""

        def writing() -> Any:
            # the loop of the writer's thread, until its queue is through
            scene.writer.run()

        return (scene.other, writing) if case["swap"] else (writing, scene.other)

    scene = Scene(case)
    total = sched.points(pair(scene)[0], case["fine"])
    spots = (
        list(range(total))
        if total <= 120
        else sorted({int(x * total) for x in case["picks"]})
    )
    for spot in spots:
        scene = Scene(case)
        first, second = pair(scene)
        one, two, where, _ = sched.preempt(first, second, spot, case["fine"])
        for result in (one, two):
            check(
                not (isinstance(result, tuple) and result and result[0] == "raised"),
                f"{case['other']}, interrupted at {where}: {result}",
                "race",
            )
        scene.judge(one if case["swap"] else two, where)
        rec.count("schedules")
    rec.label(case["other"])
    rec.nontrivial(len(spots) > 5)


# -- queues that nobody consumes any longer -----------------------------------

crowded = st.fixed_dictionaries(
    {
        "frames": st.integers(1, 14),
        "queues": st.lists(
            st.tuples(st.integers(1, 4), st.booleans()),
            min_size=1,
            max_size=5,
        ),
        "stream": st.booleans(),
        "inject": st.booleans(),
        "order": st.permutations(list(range(5))),
    }
)


def run_full(case: Any, rec: Rec) -> None:
    """Full queues hold the writer up until they are removed, not longer."""
    env = TelemetryEnvironment(256, metrics_rate=1.0, app_id_basis=0.5)
    writer, queue = default_writer("writer", env=env)
    sink = Sink("sink", {"how": "never", "fail": 0})
    if case["stream"]:
        writer.add_stream(sink)
    queues = [writer.registered_queue(maxsize=x) for x, _ in case["queues"]]
    left = [num for num, (_, used) in enumerate(case["queues"]) if not used]
    inject = case.get("inject", False)
    source = TelemetryEnvironment(256, app_id_basis=0.5)
    chan = source.add_channel("a", Primitive.UINT8, 0.0)
    frames = []
    for num in range(case["frames"]):
        source.set_now(chan, num)
        source.dispatch(float(num), False)
        frames.append(source.frame_queue.get(timeout=5))
        queue.put(frames[-1])
    alive = [num for num in range(len(queues)) if num not in left]
    got: Dict[int, List[Any]] = {num: [] for num in alive}

    def arrived(most: int) -> bool:
        """The consumers have so many frames."""
        for num in alive:
            while not queues[num][1].empty():
                got[num].append(queues[num][1].get())
        return all(len(x) >= most for x in got.values())

    stuck = [x for x in left if case["queues"][x][0] < case["frames"]]
    with writer.booted():
        for spot in case["order"]:
            if spot not in left:
                continue
            # the writer waits for the smallest of them
            ahead = min(case["queues"][x][0] for x in left)
            ahead = min(ahead, case["frames"])
            check(
                until(lambda: arrived(ahead)),
                f"{[len(x) for x in got.values()]} frames arrived with queues "
                f"for {case['queues']} frames, {left} aren't consumed",
                "full",
            )
            check(
                sched.alone(
                    lambda ident=queues[spot][0]: writer.remove_queue(
                        ident, inject
                    ),
                    f"removing a queue for {case['queues'][spot][0]} frames "
                    "that isn't consumed",
                ),
                "a queue can't be removed",
                "full",
            )
            left.remove(spot)
        check(
            until(lambda: arrived(case["frames"])),
            f"{[len(x) for x in got.values()]} of {case['frames']} frames "
            f"arrived after full queues were removed ({case['queues']})",
            "full",
        )
        check(until(queue.empty), "the writer still waits", "full")
    arrived(0)
    for num in alive:
        same(got[num], frames, f"queue {num}")
    for num, (_, used) in enumerate(case["queues"]):
        if not used:
            kept = list(queues[num][1].queue)
            if inject:
                # its consumer finds the end, however late
                kept = []
                while (elem := queues[num][1].get(timeout=5)) is not None:
                    kept.append(elem)
                check(queues[num][1].empty(), "frames after the end", "full")
            same(kept, frames[: len(kept)], f"abandoned queue {num}")
    if case["stream"]:
        same(len(sink.chunks), len(frames), "frames in a stream")
    rec.nontrivial(bool(stuck) and bool(alive))


PROP = Prop(
    "C16",
    [
        Facet(
            "history",
            lambda: histories,
            run,
            3000,
            rule="histories of sinks (healthy and failing at a chosen write), "
            "queues, frames and restarts; non-trivial = several streams, more "
            "than two frames",
        ),
        Facet(
            "race",
            lambda: races,
            run_race,
            220,
            thorough=4000,
            rule="sinks added and removed while frames are written, "
            "interrupted at lines or bytecodes; non-trivial = more than five "
            "points",
        ),
        Facet(
            "full",
            lambda: crowded,
            run_full,
            250,
            rule="queues of limited size, some are abandoned and removed; "
            "non-trivial = the writer waited for an abandoned queue while "
            "others were consumed",
        ),
    ],
    assumptions=[
        "sinks don't block forever: a slow sink slows the writer by design",
        "a sink that's removed while a frame is being written may or may not "
        "get that frame",
        "sinks raise subclasses of Exception",
    ],
)
