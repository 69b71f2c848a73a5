"""C22: reading a recording delivers its frames in order."""

from __future__ import annotations

import os
import struct
import threading
from pathlib import Path
from queue import Queue
from typing import Any, List, Optional

from hypothesis import strategies as st
from vtelem.channel import Channel
from vtelem.channel.registry import ChannelRegistry
from vtelem.classes.type_primitive import new_default
from vtelem.client.file import FileClient, FileDecodeTask, create
from vtelem.daemon import DaemonState
from vtelem.enums.primitive import Primitive
from vtelem.stream.writer import default_writer
from vtelem.telemetry.environment import TelemetryEnvironment

from vt import envs, gen, ref
from vt.core import Facet, Prop, Rec, check, same
from vt.net import until, wait

APP = 32767
OTHER = 12345

frame_kinds = gen.weighted(
    (12, st.just("good")),
    (2, st.just("plain")),
    (2, st.just("foreign")),
    (2, st.just("crc")),
    (1, st.just("short")),
    (1, st.just("unknown")),
    (1, st.just("empty")),
    (1, st.just("type")),
    (1, st.just("count")),
)
blocks = st.lists(
    st.tuples(frame_kinds, st.integers(1, 8)), min_size=0, max_size=14
)
limits = st.one_of(
    st.none(),
    st.integers(0, 6),
    st.integers(0, 60),
    st.sampled_from([-1, 10**6]),
)
histories = st.fixed_dictionaries(
    {
        "mtu": st.sampled_from([67, 68, 100, 256, 1400]),
        "expect": st.booleans(),
        "env": st.booleans(),
        "limit": gen.weighted((2, st.none()), (3, limits)),
        "first": st.lists(st.tuples(frame_kinds, st.integers(1, 8)), max_size=12),
        "skip": gen.weighted(
            (4, st.none()),
            (2, st.integers(0, 12)),
            (1, st.just("end")),
            (1, st.just("beyond")),
        ),
        "steps": st.lists(
            gen.weighted(
                (4, st.tuples(st.just("grow"), blocks)),
                (6, st.tuples(st.just("read"), st.just(0))),
                (3, st.tuples(st.just("part"), st.integers(0, 60))),
                (2, st.tuples(st.just("limit"), limits)),
                (1, st.tuples(st.just("stop"), st.integers(1, 8))),
            ),
            min_size=1,
            max_size=12,
        ),
    }
)


def encode(kind: str, serial: int, size: int) -> bytes:
    """A frame that can be told apart by its time."""
    elems = [(num % 2, "UINT32", serial * 10 + num) for num in range(size)]
    app = OTHER if kind == "foreign" else APP
    if kind == "unknown":
        elems[-1] = (9, "UINT32", 1)
    data = ref.data_frame(app, serial, elems, kind != "plain")
    if kind == "crc":
        pos = 15 + (serial * 7) % (len(data) - 15)
        return data[:pos] + bytes([data[pos] ^ 0x10]) + data[pos + 1 :]
    if kind == "short":
        return data[: 2 + serial % (len(data) - 8)]
    if kind == "empty":
        return b""
    if kind == "type":
        return data[:2] + b"\x4d" + data[3:]
    if kind == "count":
        return data[:11] + struct.pack(">I", 2**31 + serial) + data[15:]
    return data


def expected() -> Any:
    """The application a client expects."""
    result = new_default("id")
    assert result.set(APP)
    return result


class Output(Queue):
    """Stops the client when it has delivered a number of frames."""

    def __init__(self) -> None:
        super().__init__()
        self.left: Optional[int] = None
        self.client: Any = None
        self.stopper: Optional[threading.Thread] = None

    def put(self, item: Any, *args: Any, **kwargs: Any) -> None:
        """Called by the client."""
        super().put(item, *args, **kwargs)
        if self.left is not None:
            self.left -= 1
            if self.left == 0:
                self.left = None
                self.stopper = threading.Thread(target=self.client.stop)
                self.stopper.start()
                until(lambda: self.client.get_state() != DaemonState.RUNNING)


class World:
    """A recording and its client."""

    def __init__(self, case: Any, rec: Rec) -> None:
        self.path = Path(rec.tmpdir()) / "record.vtelem"
        self.serial = 0
        self.expect = case["expect"]
        self.most = (case["mtu"] - 19) // 6
        self.whole: List[int] = []  # serials of decodable frames
        self.ends: List[int] = []  # where they end
        self.pending = b""
        self.offsets = [0]
        self.written = 0
        self.total = 0

    def make(self, spec: Any) -> bytes:
        """Encode frames, note what's to be delivered."""
        out = b""
        for kind, size in spec:
            self.serial += 1
            data = ref.with_length(
                encode(kind, self.serial, min(size, self.most))
            )
            out += data
            self.total += len(data)
            self.offsets.append(self.total)
            if kind in ("good", "plain") or (
                kind == "foreign" and not self.expect
            ):
                self.whole.append(self.serial)
                self.ends.append(self.total)
        return out

    def write(self, data: bytes) -> None:
        """Append to the recording."""
        with self.path.open("ab") as stream:
            stream.write(data)
        self.written += len(data)


def serials(items: List[Any], what: str) -> List[int]:
    """What was delivered."""
    result = []
    for item in items:
        check(item is not None, f"{what}: end reported between frames")
        result.append(item.header.timestamp)
        for num, chan in enumerate(item.body["channels"]):
            same(
                chan["value"],
                item.header.timestamp * 10 + num,
                f"{what}: value {num} of a frame",
            )
    return result


def run(case: Any, rec: Rec) -> None:
    """A growing file that's read again and again."""
    world = World(case, rec)
    world.write(world.make(case["first"]))
    registry = ChannelRegistry(
        [Channel(x, Primitive.UINT32, 1.0) for x in ("a", "b")]
    )
    env = TelemetryEnvironment(256, metrics_rate=1.0, app_id_basis=0.5)
    skip = case["skip"]
    start = 0
    if isinstance(skip, int):
        start = world.offsets[skip % len(world.offsets)]
    elif skip == "end":
        start = world.written
    elif skip == "beyond":
        start = world.written + 1000
    app_id = None
    if case["expect"]:
        app_id = expected()
    out = Output()
    client = FileClient(
        FileDecodeTask(world.path, start, case["limit"]),
        out,
        registry,
        app_id,
        env if case["env"] else None,
        case["mtu"],
    )
    out.client = client
    limit = case["limit"]
    delivered = 0
    reads = stopped = 0
    pending = b""
    for num, (kind, arg) in enumerate(case["steps"] + [["read", 0], ["all", 0]]):
        what = f"step {num} ({kind})"
        if kind in ("grow", "part") and skip == "beyond":
            continue
        if kind == "grow":
            world.write(pending + world.make(arg))
            pending = b""
            continue
        if kind == "part":
            # the last frames are still being written
            if not pending:
                pending = world.make([("good", 8), ("good", 1)])
            world.write(pending[:arg])
            pending = pending[arg:]
            continue
        if kind == "limit":
            limit = arg
            client.task = client.task._replace(max_frames=limit)
            continue
        if kind == "all":
            world.write(pending)
            limit = None
            client.task = client.task._replace(max_frames=None)
        if kind == "stop":
            out.left = arg
        check(client.start(), f"{what}: the client can't be started")
        thread = client.thread
        wait(
            lambda: client.get_state() == DaemonState.IDLE,
            "the client's thread",
        )
        if thread is not None:
            thread.join(30)
        if out.stopper is not None:
            out.stopper.join(30)
        hit = out.stopper is not None
        out.stopper = None
        out.left = None
        items = []
        while not out.empty():
            items.append(out.get())
        possible = [
            x
            for x, end in zip(world.whole, world.ends)
            if start < end <= world.written
        ]
        room = None if limit is None else max(0, limit - delivered)
        want = possible[delivered:]
        full = room is not None and len(want) >= room
        if full:
            want = want[:room]
        if not full and not hit:
            check(
                items and items[-1] is None,
                f"{what}: the end of the file isn't reported",
            )
            items.pop()
        elif items and items[-1] is None:
            items.pop()
        got = serials(items, what)
        if hit:
            stopped += 1
            check(
                got == want[: len(got)] and len(got) >= min(arg, len(want)),
                f"{what}: got frames {got} of {want}",
            )
        else:
            same(got, want, f"{what}: frames")
        delivered += len(got)
        reads += bool(got)
        if full and room:
            rec.label("limited")
    if stopped:
        rec.label("stopped")
    if world.total - len(world.whole) and len(world.offsets) - 1 > len(world.whole):
        rec.label("undecodable")
    if start:
        rec.label("position")
    rec.nontrivial(reads > 1 and delivered > 4)


# -- from a position inside of a frame ----------------------------------------

inside = st.fixed_dictionaries(
    {
        "mtu": st.sampled_from([67, 100, 256]),
        "frames": st.lists(
            st.tuples(frame_kinds, st.integers(1, 8)), min_size=1, max_size=20
        ),
        "position": st.integers(0, 2000),
    }
)


def run_inside(case: Any, rec: Rec) -> None:
    """Wherever it's started, only frames of the recording come out."""
    case = dict(case, expect=True)
    world = World(case, rec)
    world.write(world.make(case["frames"]))
    start = case["position"] % (world.written + 2)
    out: Queue = Queue()
    client = FileClient(
        FileDecodeTask(world.path, start),
        out,
        ChannelRegistry([Channel(x, Primitive.UINT32, 1.0) for x in ("a", "b")]),
        expected(),
        TelemetryEnvironment(256, app_id_basis=0.5),
        case["mtu"],
    )
    check(client.start(), "the client can't be started")
    wait(lambda: client.get_state() == DaemonState.IDLE, "the client's thread")
    items = []
    while not out.empty():
        items.append(out.get())
    check(items and items[-1] is None, "the end of the file isn't reported")
    got = [x.header.timestamp for x in items[:-1]]
    want = [x for x, end in zip(world.whole, world.ends) if end > start]
    if start in world.offsets:
        same(got, want, "frames from the start of one")
    else:
        spot = iter(want)
        check(
            all(x in spot for x in got),
            f"from inside of a frame: got {got} of {want}",
        )
    rec.nontrivial(start not in world.offsets and len(want) > 0)


# -- what an environment records ----------------------------------------------

recorded = st.fixed_dictionaries(
    {
        "mtu": st.sampled_from([64, 80, 128, 1400]),
        "crc": st.booleans(),
        "metrics": st.sampled_from([None, 1.0, 0.5]),
        "channels": st.lists(
            st.tuples(gen.prims, gen.rates, st.booleans()),
            min_size=1,
            max_size=6,
        ),
        "limit": st.one_of(st.none(), st.none(), st.integers(0, 30)),
        "rounds": st.lists(
            st.lists(
                st.tuples(st.integers(0, 5), gen.any_value()),
                min_size=1,
                max_size=6,
            ),
            min_size=1,
            max_size=4,
        ),
    }
)


def plain(frame: Any) -> Any:
    """A decoded frame as the reference reports it."""
    body = frame.body
    if "channels" in body:
        return (
            frame.header.timestamp,
            ref.DATA,
            [
                (x["id"], ref.pack(x["channel"].type.name, x["value"]))
                for x in body["channels"]
            ],
        )
    elems = []
    for elem in body["events"]:
        one: Any = (elem["id"],)
        for side in ("previous", "current"):
            value = ref.pack(elem["channel"].type.name, elem[side]["value"])
            one += (value, elem[side]["time"])
        elems.append(one)
    return (frame.header.timestamp, ref.EVENT, elems)


def run_recorded(case: Any, rec: Rec) -> None:
    """A stream writer records what an environment dispatches."""
    env = TelemetryEnvironment(
        case["mtu"],
        metrics_rate=case["metrics"],
        app_id_basis=0.5,
        use_crc=case["crc"],
    )
    writer, _ = default_writer("frames", env=env, queue=env.frame_queue)
    idents = [
        env.add_channel(
                f"chan{num}",
                Primitive[prim],
                rate,
                **envs.options(track_change=track),
            )
        for num, (prim, rate, track) in enumerate(case["channels"])
    ]
    raw: Queue = Queue()

    class Sink:
        """Gets a copy of everything."""

        @staticmethod
        def write(data: bytes) -> int:
            """Called by the writer."""
            raw.put(bytes(data))
            return len(data)

        @staticmethod
        def flush() -> None:
            """Nothing is buffered."""

    writer.add_stream(Sink())  # type: ignore
    limit = case["limit"]
    sent: List[Any] = []
    delivered = total = 0
    with create(writer, env, case["mtu"], limit) as (client, queue):
        for num, step in enumerate(case["rounds"]):
            for which, (prim, value) in step:
                ident = idents[which % len(idents)]
                if case["channels"][which % len(idents)][0] == prim:
                    env.set_now(ident, value)
                env.advance_time(0.5)
                env.dispatch_now()
            env.frame_queue.put(None)
            writer.run()  # the loop of its thread
            types = envs.channel_types(env)
            while not raw.empty():
                data = raw.get()
                parsed = envs.parse(data[4:], types, case["crc"])
                sent.append(parsed)
            check(client.start(), "the client can't be started")
            wait(
                lambda: client.get_state() == DaemonState.IDLE,
                "the client's thread",
            )
            got = []
            while not queue.empty():
                got.append(queue.get())
            want = sent[delivered:]
            full = limit is not None and len(want) >= limit - delivered
            if full:
                want = want[: limit - delivered]
            else:
                check(
                    got and got[-1] is None,
                    f"round {num}: the end of the file isn't reported",
                )
            if got and got[-1] is None:
                got.pop()
            same(len(got), len(want), f"round {num}: frames")
            for one, two in zip(got, want):
                same(
                    plain(one),
                    (two["timestamp"], two["type"], two["elems"]),
                    f"round {num}: a frame",
                )
            delivered += len(got)
            total += len(want)
    check(not os.path.exists(client.task.path), "the recording is left over")
    rec.nontrivial(total > 4 and len(case["rounds"]) > 1)


PROP = Prop(
    "C22",
    [
        Facet(
            "history",
            lambda: histories,
            run,
            4000,
            rule="recordings that grow (also by parts of frames) between "
            "reads, limits, positions, stops in the middle, undecodable "
            "frames; non-trivial = frames delivered by more than one read, "
            "more than four in total",
        ),
        Facet(
            "position",
            lambda: inside,
            run_inside,
            1500,
            rule="reading from any byte; non-trivial = it's inside of a frame",
        ),
        Facet(
            "recorded",
            lambda: recorded,
            run_recorded,
            500,
            rule="what an environment dispatches, recorded by a stream "
            "writer; non-trivial = more than four frames, several rounds",
        ),
    ],
    more=2,
    assumptions=[
        "recorded frames aren't larger than the client's MTU",
        "a limit counts all frames a client ever delivered",
        "where decoding starts again after a position inside of a frame isn't "
        "specified",
    ],
)
