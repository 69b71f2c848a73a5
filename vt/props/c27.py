"""C27: application ids are stable, in range and separate applications."""

from __future__ import annotations

import math
import random
import struct
from queue import Queue
from typing import Any, Dict, List, Tuple

from hypothesis import strategies as st
from vtelem.channel.environment import ChannelEnvironment
from vtelem.channel.framer import ChannelFramer
from vtelem.channel.framer import build_dummy_frame as channel_dummy
from vtelem.channel.registry import ChannelRegistry
from vtelem.classes.time_entity import LockEntity
from vtelem.classes.type_primitive import TypePrimitive, new_default
from vtelem.client import TelemetryClient
from vtelem.daemon.telemetry import TelemetryDaemon
from vtelem.enums.primitive import INTEGER_PRIMITIVES, Primitive, random_integer
from vtelem.frame.framer import Framer, basis_to_int, build_dummy_frame
from vtelem.message.framer import MessageFramer
from vtelem.parsing.encapsulation import decode_frame
from vtelem.telemetry.environment import TelemetryEnvironment
from vtelem.classes.time_keeper import TimeKeeper
from vtelem.types.frame import FrameType

from vt import gen, ref
from vt.core import Facet, Prop, Rec, check, same

TOP = 2**16 - 1
basis = st.one_of(
    st.floats(0.0, 1.0),
    st.floats(-4.0, 4.0),
    st.floats(allow_nan=False),
    st.integers(-(10**6), 10**6),
    st.integers(0, TOP).map(lambda x: x / TOP),
    st.sampled_from(
        [0, 1, -1, 0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 2, 5e-324, 1e-308, 1e308]
        + [1.7976931348623157e308, math.inf, -math.inf, 1 - 2**-53, 1 + 2**-52]
    ),
)
mtus = st.integers(67, 400)


def scale(value: float) -> float:
    """Where a basis lies between nothing and everything."""
    value = abs(value)
    return 1.0 / value if value > 1.0 else value


def producers(value: float, mtu: int) -> Dict[str, Any]:
    """Everything that makes frames, and the id it has."""
    registry = ChannelRegistry()
    lock = LockEntity().lock
    keeper = TimeKeeper("time", 1.0)
    result = {
        "framer": Framer(mtu, value).primitives["app_id"],
        "channel framer": ChannelFramer(
            mtu, registry, [], lock, value
        ).primitives["app_id"],
        "message framer": MessageFramer(mtu, value).primitives["app_id"],
        "channel environment": ChannelEnvironment(
            mtu, app_id_basis=value
        ).app_id,
        "telemetry environment": TelemetryEnvironment(
            mtu, app_id_basis=value
        ).app_id,
        "daemon": TelemetryDaemon(
            "telem", mtu, 1.0, keeper, app_id_basis=value
        ).app_id,
        "created": Framer.create_app_id(value),
    }
    return result


# -- ids ----------------------------------------------------------------------

ids = st.fixed_dictionaries(
    {"first": basis, "second": basis, "mtu": mtus, "every": st.booleans()}
)


def run_ids(case: Any, rec: Rec) -> None:
    """In range, the same again, in order, and apart."""
    first, second = case["first"], case["second"]
    got = {}
    for value in (first, second):
        ident = basis_to_int(value)
        check(
            isinstance(ident, int) and 0 <= ident <= TOP,
            f"basis {value!r} gives the id {ident!r}",
        )
        same(basis_to_int(value), ident, f"id of {value!r}, once more")
        same(basis_to_int(-value), ident, f"id of {-value!r}")
        created = Framer.create_app_id(value)
        same(created.type.name, "UINT16", "type of an id")
        same(created.get(), ident, f"id created for {value!r}")
        same(
            basis_to_int(float(struct.unpack(">d", struct.pack(">d", value))[0])),
            ident,
            f"id of a copy of {value!r}",
        )
        got[value] = ident
        check(
            abs(ident - scale(value) * TOP) <= 1.0,
            f"basis {value!r} gives {ident}, the scale isn't used evenly",
        )
    # a larger part of the scale never gives a smaller id
    low, high = sorted((first, second), key=scale)
    check(
        got[low] <= got[high],
        f"{low!r} gives {got[low]}, {high!r} gives {got[high]}",
    )
    if scale(high) - scale(low) > 2.0 / TOP:
        check(
            got[low] != got[high],
            f"{low!r} and {high!r} share the id {got[low]}",
        )
        rec.label("different ids")
    if case["every"]:
        for name, prim in producers(first, case["mtu"]).items():
            same(prim.get(), got[first], f"id of a {name} for {first!r}")
        rec.label("all producers")
    rec.nontrivial(got[first] not in (0, TOP))


# -- frames -------------------------------------------------------------------

kinds = st.sampled_from(
    ["data", "event", "message", "invalid", "channel invalid", "forged"]
)
framed = st.fixed_dictionaries(
    {
        "producer": basis,
        "receiver": st.one_of(
            st.just("same"),
            st.just("none"),
            basis,
            st.integers(0, 15).map(lambda x: ("bit", x)),
            st.sampled_from([("step", 1), ("step", -1), ("step", 256)]),
        ),
        "frames": st.lists(
            st.tuples(kinds, st.integers(1, 12), st.integers(0, TOP)),
            min_size=1,
            max_size=8,
        ),
        "mtu": mtus,
        "crc": st.booleans(),
        "stream": st.booleans(),
        "cut": st.integers(1, 40),
    }
)


class Producer:
    """Makes frames of every kind with one application id."""

    def __init__(self, case: Any) -> None:
        self.value = case["producer"]
        self.crc = case["crc"]
        self.mtu = case["mtu"]
        self.env = TelemetryEnvironment(
            self.mtu,
            init_time=0.0,
            app_id_basis=self.value,
            use_crc=self.crc,
        )
        self.env.add_channel("chan", Primitive.UINT16, 0.0)
        self.events = self.env.add_channel(
            "events", Primitive.UINT32, 0.0, track_change=True
        )
        self.changes = 0
        self.messages = MessageFramer(self.mtu, self.value, self.crc)
        self.time = 0.0
        self.ident = self.env.app_id.get()

    def drain(self) -> List[bytes]:
        """What the environment queued."""
        result = []
        while not self.env.frame_queue.empty():
            frame = self.env.frame_queue.get(timeout=30)
            data, size = frame.raw
            result.append(bytes(data[:size]))
        return result

    def make(self, kind: str, size: int, ident: int) -> List[Tuple[int, bytes]]:
        """Frames and the id each carries."""
        self.time += 1.0
        if kind == "forged":
            raw = ref.data_frame(ident, 5, [(0, "UINT16", size)], self.crc)
            return [(ident, raw)]
        if kind == "data":
            self.env.advance_time(1.0)
            self.env.dispatch(self.time)
            found = self.drain()
            found = [x for x in found if x[2] == FrameType.DATA.value]
        elif kind == "event":
            self.env.advance_time(1.0)
            for _ in range(size):
                self.changes += 1
                check(self.env.set_now(self.events, self.changes), "refused")
            self.env.dispatch(self.time)
            found = self.drain()
            found = [x for x in found if x[2] == FrameType.EVENT.value]
        elif kind == "message":
            frames, _ = self.messages.serialize_message(
                bytes(range(size)) * 20, self.time
            )
            found = []
            for frame in frames:
                data, length = frame.raw
                found.append(bytes(data[:length]))
        else:
            make = build_dummy_frame if kind == "invalid" else channel_dummy
            kwargs: Dict[str, Any] = {"app_id_basis": self.value}
            if kind == "invalid":
                kwargs["frame_builder"] = fill
            data, length = make(self.mtu, **kwargs).raw
            found = [bytes(data[:length])]
        check(bool(found), f"no {kind} frames were made")
        return [(self.ident, x) for x in found]


def fill(frame: Any) -> None:
    """Something for an empty frame."""
    frame.write(new_default("enum"))


def run_frames(case: Any, rec: Rec) -> None:
    """A receiver takes what carries its id, and all of that."""
    maker = Producer(case)
    ident = maker.ident
    receiver = case["receiver"]
    expected = None
    if receiver == "same":
        expected = maker.env.app_id
    elif receiver != "none":
        if isinstance(receiver, (tuple, list)) and receiver[0] == "bit":
            number = ident ^ (1 << receiver[1])
        elif isinstance(receiver, (tuple, list)):
            number = (ident + receiver[1]) % (TOP + 1)
        else:
            number = basis_to_int(receiver)
        expected = TypePrimitive(Primitive.UINT16)
        check(expected.set(number), f"id {number} is refused")
    registry = maker.env.channel_registry
    queue: Any = Queue()
    client = TelemetryClient("client", queue, registry, expected, 2**16)
    wanted: List[bytes] = []
    stream = b""
    for kind, size, forged in case["frames"]:
        if kind == "forged" and size > 6 and expected is not None:
            forged = expected.get()
        for carried, raw in maker.make(kind, size, forged):
            same(
                struct.unpack(">H", raw[:2])[0],
                carried,
                f"id in a frame ({kind})",
            )
            good = expected is None or expected.get() == carried
            result = decode_frame(registry, raw, len(raw), expected)
            check(
                (result is not None) is good,
                f"a {kind} frame with id {carried} is "
                f"{'refused' if result is None else 'accepted'} by a receiver "
                f"of {expected}",
            )
            if result is not None:
                same(result.header.app_id, carried, f"id of a {kind} frame")
            if case["stream"]:
                stream += ref.with_length(raw)
            else:
                same(
                    client.handle_frames([raw]), int(good), "frames accepted"
                )
            if good:
                wanted.append(raw)
            rec.count("accepted" if good else "refused")
        rec.label(kind)
    if case["stream"]:
        size = new_default("count")
        count = 0
        for pos in range(0, len(stream), case["cut"]):
            piece = stream[pos : pos + case["cut"]]
            count += client.handle_frames(
                client.processor.process(piece, size, client.mtu)
            )
        same(count, len(wanted), "frames of the stream that were accepted")
    same(queue.qsize(), len(wanted), "frames that a client delivers")
    for raw in wanted:
        frame = queue.get(timeout=30)
        same(
            frame.header.app_id, struct.unpack(">H", raw[:2])[0], "delivered id"
        )
        same(frame.header.type.value, raw[2], "delivered type")
    rec.nontrivial(
        rec.notes.get("refused") or (wanted and expected is not None)
    )


# -- random numbers -----------------------------------------------------------

randoms = st.fixed_dictionaries(
    {
        "prim": st.sampled_from([x.name for x in INTEGER_PRIMITIVES]),
        "seed": st.integers(0, 2**32),
        "edges": gen.weighted((3, st.just(True)), (1, st.just(False))),
        "draws": st.integers(20, 120),
    }
)


class Edges(random.Random):
    """Bits at the edges of what was asked for, much more often."""

    source: random.Random

    def getrandbits(self, k: int) -> int:  # type: ignore[override]
        """All ones, half of it, and next to it."""
        pick = self.source.randrange(6)
        half = (1 << k) >> 1
        choices = [(1 << k) - 1, half, max(half - 1, 0), 0, half - 2]
        if pick == 5 or choices[pick] < 0:
            return self.source.getrandbits(k)
        return choices[pick]


def run_random(case: Any, rec: Rec) -> None:
    """Whatever the source of random numbers gives, the result fits."""
    prim = case["prim"]
    low, high = ref.bounds(prim)
    source = random.Random(case["seed"])
    inst = getattr(random, "_inst", None)
    edges = case["edges"] and inst is not None
    state = random.getstate()
    found = set()
    try:
        random.seed(case["seed"])
        if edges:
            maker = Edges(0)
            maker.source = source
            inst.getrandbits = maker.getrandbits
        for _ in range(case["draws"]):
            value = random_integer(Primitive[prim])
            check(
                type(value) is int and low <= value <= high,
                f"random {prim} is {value!r}",
            )
            check(
                TypePrimitive(Primitive[prim]).set(value),
                f"random {value!r} doesn't fit {prim}",
            )
            found.add(value)
            ident = Framer.create_app_id()
            same(ident.type.name, "UINT16", "type of an id")
            check(
                0 <= ident.get() <= TOP, f"random id is {ident.get()!r}"
            )
    finally:
        if edges:
            del inst.getrandbits
        random.setstate(state)
    if low in found:
        rec.label("smallest")
    if high in found:
        rec.label("largest")
    check(len(found) > 1, f"{case['draws']} random {prim} are all the same")
    rec.label(prim, "edges" if edges else "plain")
    rec.nontrivial(edges)


PROP = Prop(
    "C27",
    [
        Facet(
            "ids",
            lambda: ids,
            run_ids,
            5000,
            rule="the id is neither the first nor the last one",
        ),
        Facet(
            "frames",
            lambda: framed,
            run_frames,
            5000,
            rule="a frame was refused, or accepted by a receiver that expects "
            "an id",
        ),
        Facet(
            "random",
            lambda: randoms,
            run_random,
            1200,
            rule="random bits at the edges of the requested range",
        ),
    ],
    more=2,
    assumptions=[
        "a basis that isn't a number isn't one",
        "the scale of bases from zero to one is spread evenly over the ids, "
        "bases above one are used by their inverse",
    ],
)
