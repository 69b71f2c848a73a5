"""C02: decoding returns exactly what a well-formed frame carries."""

from __future__ import annotations

import zlib
from typing import Any

from hypothesis import strategies as st
from vtelem.channel import Channel
from vtelem.enums.primitive import Primitive
from vtelem.telemetry.environment import TelemetryEnvironment
from vtelem.types.frame import FrameType, MessageType

from vt import envs, gen, ref
from vt.core import Facet, Prop, Rec, Violation, check, same

stamps = st.one_of(
    st.integers(0, 1000), st.integers(0, 2**64 - 1), st.just(2**64 - 1)
)
app_ids = st.one_of(st.integers(0, 65535), st.sampled_from([0, 65535, 255, 256]))
idxs = st.one_of(st.integers(0, 5), st.integers(0, 65535), st.just(65535))


@st.composite
def cases(draw: Any) -> Any:
    """A channel table and frames of every type."""
    table = draw(
        st.lists(
            st.tuples(gen.prims, st.booleans()), min_size=1, max_size=10
        )
    )
    plain = [i for i, x in enumerate(table) if not x[1]]
    streams = [i for i, x in enumerate(table) if x[1]]
    kinds = ["message"]
    if plain:
        kinds += ["data", "event", "data", "event"]
    if streams:
        kinds += ["stream"]
    frames = []
    for _ in range(draw(st.integers(1, 4))):
        kind = draw(st.sampled_from(kinds))
        frame = {
            "kind": kind,
            "app": draw(app_ids),
            "stamp": draw(stamps),
            "crc": draw(st.booleans()),
            "extra": draw(st.binary(max_size=6)),
            "expect": draw(st.sampled_from(["none", "same", "env"])),
        }
        if kind in ("data", "event"):
            amount = draw(st.one_of(st.integers(0, 3), st.integers(0, 40)))
            elems = []
            for _ in range(amount):
                num = draw(st.sampled_from(plain))
                vals = gen.value_of(table[num][0])
                if kind == "data":
                    elems.append([num, draw(vals)])
                else:
                    elems.append(
                        [num, draw(vals), draw(stamps), draw(vals), draw(stamps)]
                    )
            frame["elems"] = elems
        elif kind == "message":
            frame["mtype"] = draw(st.sampled_from([x.value for x in MessageType]))
            frame["number"] = draw(idxs)
            frame["index"] = draw(idxs)
            frame["total"] = draw(idxs)
            frame["data"] = draw(st.binary(max_size=80))
        else:
            num = draw(st.sampled_from(streams))
            frame["chan"] = num
            frame["index"] = draw(st.integers(0, 2**32 - 1))
            frame["values"] = draw(
                st.lists(gen.value_of(table[num][0]), max_size=12)
            )
        frames.append(frame)
    return {"table": table, "frames": frames}


def encode(frame: Any, table: Any) -> bytes:
    """The reference encoding."""
    kind = frame["kind"]
    app, stamp, crc = frame["app"], frame["stamp"], frame["crc"]
    if kind == "data":
        elems = [(x[0], table[x[0]][0], x[1]) for x in frame["elems"]]
        return ref.data_frame(app, stamp, elems, crc)
    if kind == "event":
        elems = [
            (x[0], table[x[0]][0], x[1], x[2], x[3], x[4])
            for x in frame["elems"]
        ]
        return ref.event_frame(app, stamp, elems, crc)
    if kind == "message":
        return ref.message_frame(
            app,
            stamp,
            frame["mtype"],
            frame["number"],
            zlib.crc32(frame["data"]),
            frame["index"],
            frame["total"],
            frame["data"],
            crc,
        )
    return ref.stream_frame(
        app,
        stamp,
        frame["chan"],
        frame["index"],
        table[frame["chan"]][0],
        frame["values"],
        crc,
    )


TYPES = {
    "data": FrameType.DATA,
    "event": FrameType.EVENT,
    "message": FrameType.MESSAGE,
    "stream": FrameType.STREAM,
}


def bits(prim: str, value: Any) -> bytes:
    """Values compare as what they are on the wire (NaN, -0.0, rounding)."""
    check(
        isinstance(value, Primitive[prim].value.type),
        f"{prim} decodes to a {type(value).__name__}",
    )
    return ref.pack(prim, value)


def compare(result: Any, frame: Any, table: Any, length: int) -> None:
    """The parsed frame holds what was encoded."""
    kind = frame["kind"]
    check(result is not None, f"a well-formed {kind} frame is rejected")
    header = result.header
    same(header.app_id, frame["app"], "app_id")
    same(header.type, TYPES[kind], "frame type")
    same(header.timestamp, frame["stamp"], "timestamp")
    if frame["crc"]:
        same(result.footer.crc is not None, True, "checksum present")
    else:
        same(result.footer.crc, None, "checksum")
    same(header.length, length, "length")
    body = result.body
    if kind == "data":
        got = body["channels"]
        same(header.size, len(frame["elems"]), "element count")
        same([x["id"] for x in got], [x[0] for x in frame["elems"]], "ids")
        for have, want in zip(got, frame["elems"]):
            prim = table[want[0]][0]
            same(
                bits(prim, have["value"]), ref.pack(prim, want[1]), f"{prim} value"
            )
            same(have["channel"].name, f"chan{want[0]}", "channel of an element")
    elif kind == "event":
        got = body["events"]
        same(header.size, len(frame["elems"]), "element count")
        same([x["id"] for x in got], [x[0] for x in frame["elems"]], "ids")
        for have, want in zip(got, frame["elems"]):
            prim = table[want[0]][0]
            for side, num in (("previous", 1), ("current", 3)):
                same(
                    bits(prim, have[side]["value"]),
                    ref.pack(prim, want[num]),
                    f"{side} {prim} value",
                )
                same(have[side]["time"], want[num + 1], f"{side} time")
            same(have["channel"].name, f"chan{want[0]}", "channel of an event")
    elif kind == "message":
        same(header.size, len(frame["data"]), "fragment size")
        same(body["message_type"], frame["mtype"], "message type")
        same(body["message_number"], frame["number"], "message number")
        same(body["message_crc"], zlib.crc32(frame["data"]), "message crc")
        same(body["fragment_index"], frame["index"], "fragment index")
        same(body["total_fragments"], frame["total"], "total fragments")
        same(bytes(body["fragment_bytes"]), frame["data"], "fragment bytes")
    else:
        prim = table[frame["chan"]][0]
        same(header.size, len(frame["values"]), "element count")
        same(body["id"], frame["chan"], "stream channel")
        same(body["index"], frame["index"], "stream index")
        same(
            bytes(body["data"]),
            b"".join(ref.pack(prim, x) for x in frame["values"]),
            "stream data",
        )


def run(case: Any, rec: Rec) -> None:
    """Decode what the reference encoded."""
    table = case["table"]
    chans = [
        Channel(f"chan{num}", Primitive[prim], 1.0, is_stream=stream)
        for num, (prim, stream) in enumerate(table)
    ]
    env = TelemetryEnvironment(1024, initial_channels=chans, app_id_basis=0.5)
    for frame in case["frames"]:
        data = encode(frame, table)
        expect = None
        if frame["expect"] == "env":
            expect = env.app_id
        elif frame["expect"] == "same":
            expect = type(env.app_id)(env.app_id.type)
            check(expect.set(frame["app"]), "an application id is refused")
        # a receive buffer is often larger than what was received
        before = bytes(data) + frame["extra"]
        given = bytearray(before) if frame["extra"] else bytes(data)
        result = env.decode_frame(given, len(data), expect)
        same(bytes(given), before, "the receive buffer after decoding")
        if frame["expect"] == "env" and env.app_id.get() != frame["app"]:
            same(result, None, "frame of another application")
            rec.label("foreign")
        else:
            compare(result, frame, table, len(data))
        rec.label(frame["kind"], "crc" if frame["crc"] else "no-crc")
    rec.nontrivial(
        any(
            x.get("elems") or x.get("data") or x.get("values")
            for x in case["frames"]
        )
    )


# -- from values to values through the real encoder ---------------------------


@st.composite
def trips(draw: Any) -> Any:
    """Two environments with the same channels."""
    chans = draw(envs.channels(max_size=16))
    sets = []
    for _ in range(draw(st.integers(0, 12)) if chans else 0):
        num = draw(st.integers(0, len(chans) - 1))
        sets.append(
            [num, draw(gen.value_of(chans[num]["prim"])), draw(gen.exact_times())]
        )
    return {
        "env": draw(envs.specs),
        "chans": chans,
        "sets": sets,
        "time": draw(gen.exact_times(500)),
    }


def run_trip(case: Any, rec: Rec) -> None:
    """The receiver ends up with the sender's values."""
    env = envs.make_env(case["env"])
    other = envs.make_env(case["env"])
    ids = [envs.add_channel(env, x) for x in case["chans"]]
    for chan in case["chans"]:
        envs.add_channel(other, chan)
    events = []
    for num, value, time in case["sets"]:
        chan = env.channel_registry.get_item(ids[num])
        prev = chan.get()
        check(chan.set(value, time), f"rejected {value!r}")
        if case["chans"][num]["track"] and prev != value:
            events.append((ids[num], prev, value))
    now = (case["env"]["time"] or 0.0) + case["time"] + 10.0
    values = {}
    for num, ident in enumerate(ids):
        if now >= case["chans"][num]["rate"]:
            values[ident] = (case["chans"][num]["prim"], env.get_value(ident))
    env.dispatch(now)
    got = {}
    got_events = []
    while not env.frame_queue.empty():
        frame = env.frame_queue.get(timeout=30)
        data, size = frame.raw
        result = other.decode_frame(data, size, other.app_id)
        if result is None:
            raise Violation("a frame that was just built is rejected")
        if result.header.type == FrameType.DATA:
            for elem in result.body["channels"]:
                check(elem["id"] not in got, "channel twice in a dispatch")
                got[elem["id"]] = elem["value"]
        else:
            for elem in result.body["events"]:
                if elem["id"] in ids:
                    got_events.append(
                        (
                            elem["id"],
                            elem["previous"]["value"],
                            elem["current"]["value"],
                        )
                    )
    for ident, (prim, value) in values.items():
        check(ident in got, f"no value for a due channel of type {prim}")
        same(ref.pack(prim, got[ident]), ref.pack(prim, value), f"{prim} value")
    kinds = {x: env.channel_registry.get_channel_type(x).name for x in ids}
    tracked = [x for x in got_events]
    # initial values set before cause events of their own
    want = [
        (i, ref.pack(kinds[i], a), ref.pack(kinds[i], b)) for i, a, b in events
    ]
    have = [
        (i, ref.pack(kinds[i], a), ref.pack(kinds[i], b)) for i, a, b in tracked
    ]
    same(have[len(have) - len(want) :], want, "events after a round trip")
    rec.label(f"events={min(len(events), 3)}")
    rec.nontrivial(len(values) >= 2 or events)


PROP = Prop(
    "C02",
    [
        Facet(
            "decode",
            cases,
            run,
            3000,
            rule="channel tables and frames of every type made by the "
            "reference encoder, decoded by vtelem; non-trivial = a frame that "
            "carries something",
        ),
        Facet(
            "roundtrip",
            trips,
            run_trip,
            1500,
            rule="values set in one environment, dispatched and decoded in "
            "another; non-trivial = two channels or an event",
        ),
    ],
    more=2,
    assumptions=["both ends know the same channels"],
)
