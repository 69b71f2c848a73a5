"""C01: every frame that is sent follows the documented wire format."""

from __future__ import annotations

import math
import zlib
from typing import Any

from hypothesis import strategies as st
from vtelem.channel.framer import build_dummy_frame
from vtelem.classes.byte_buffer import crc as lib_crc
from vtelem.enums.primitive import Primitive
from vtelem.frame.framer import Framer, basis_to_int
from vtelem.message.framer import MessageFramer
from vtelem.types.frame import MessageType

from vt import envs, gen, ref
from vt.core import Facet, Prop, Rec, check, same

# -- frames of an environment -------------------------------------------------

ops = st.lists(
    gen.weighted(
        (5, st.tuples(st.just("set"), st.integers(0, 30), st.integers(0, 2**32))),
        (2, st.tuples(st.just("dispatch"), gen.exact_times(200))),
        (1, st.tuples(st.just("mtu"), st.integers(53, 200))),
    ),
    max_size=25,
)


@st.composite
def env_cases(draw: Any) -> Any:
    """Channels, value changes and dispatches."""
    chans = draw(envs.channels(max_size=30))
    steps = []
    for _ in range(draw(st.integers(1, 5))):
        sets = []
        if chans:
            for _ in range(draw(st.integers(0, 14))):
                num = draw(st.integers(0, len(chans) - 1))
                sets.append(
                    [
                        num,
                        draw(gen.value_of(chans[num]["prim"])),
                        draw(gen.exact_times()),
                    ]
                )
        steps.append(
            {
                "sets": sets,
                "mtu": draw(
                    st.one_of(st.none(), st.none(), st.integers(53, 1500))
                ),
                "dt": draw(gen.exact_times(100)),
                "sums": draw(st.sampled_from([None, None, True, False])),
            }
        )
    return {"env": draw(envs.specs), "chans": chans, "steps": steps}


def run_env(case: Any, rec: Rec) -> None:
    """Every frame of every dispatch is well formed and within the MTU."""
    spec = case["env"]
    env = envs.make_env(spec)
    ids = [envs.add_channel(env, chan) for chan in case["chans"]]
    mtu = spec["mtu"]
    now = spec["time"] or 0.0
    app_id = env.app_id.get()
    same(app_id, basis_to_int(spec["basis"]), "application id of the basis")
    multi = 0
    kinds = set()
    sums = True
    for step in case["steps"]:
        if step["mtu"] is not None:
            env.handle_new_mtu(step["mtu"])
            mtu = min(mtu, step["mtu"])
        if step.get("sums") is not None:
            # checksums can be wrong, on purpose, for a while
            env.write_crc = sums = step["sums"]
        for num, value, time in step["sets"]:
            chan = env.channel_registry.get_item(ids[num])
            check(
                chan.set(value, time),
                f"{case['chans'][num]['prim']} rejects {value!r}",
            )
        now += step["dt"]
        env.dispatch(now)
        types = envs.channel_types(env)
        frames = envs.drain(env)
        per = {ref.DATA: 0, ref.EVENT: 0}
        for data in frames:
            check(len(data) <= mtu, f"frame of {len(data)} over MTU {mtu}")
            if spec["crc"] and not sums:
                real = zlib.crc32(data[:-4]).to_bytes(4, "big")
                check(data[-4:] != real, "a checksum that isn't wrong")
                data = data[:-4] + real
            got = envs.parse(data, types, spec["crc"])
            same(got["app_id"], app_id, "app_id of a frame")
            check(
                got["type"] in (ref.DATA, ref.EVENT),
                f"frame type {got['type']}",
            )
            check(got["size"] > 0, "frame without elements")
            same(got["timestamp"], int(now * 1000), "frame timestamp")
            per[got["type"]] += 1
            kinds.add(got["type"])
        multi = max(multi, per[ref.DATA], per[ref.EVENT])
    rec.label(f"frames-per-dispatch>={min(multi, 3)}")
    rec.label("crc" if spec["crc"] else "no-crc")
    for kind in kinds:
        rec.label(f"type-{kind}")
    rec.nontrivial(multi >= 2)


# -- the exact bytes of an uncrowded dispatch ---------------------------------


@st.composite
def exact_cases(draw: Any) -> Any:
    """One dispatch that fits a single frame."""
    chans = draw(envs.channels(max_size=20))
    for chan in chans:
        chan["rate"] = 0.0
        chan["track"] = False
    return {
        "crc": draw(st.booleans()),
        "basis": draw(
            st.one_of(
                st.sampled_from([0.0, 0.5, 1.0]),
                st.floats(0, 1),
                st.floats(-1e6, 1e6),
            )
        ),
        "chans": chans,
        "time": draw(gen.exact_times(2**33)),
        "mtu": draw(st.integers(300, 2000)),
    }


def run_exact(case: Any, rec: Rec) -> None:
    """The bytes are those of the reference encoder."""
    env = envs.make_env(
        {"mtu": case["mtu"], "basis": case["basis"], "crc": case["crc"]}
    )
    elems = []
    for chan in case["chans"]:
        ident = envs.add_channel(env, chan)
        value = chan["init"][0] if chan["init"] else default(chan["prim"])
        elems.append((ident, chan["prim"], value))
    env.dispatch(case["time"])
    queued = []
    while not env.frame_queue.empty():
        queued.append(env.frame_queue.get(timeout=30))
    if not elems:
        same(len(queued), 0, "frames without channels")
        return
    same(len(queued), 1, "frames for elements that fit one frame")
    basis = abs(case["basis"])
    if basis > 1:
        basis = 1 / basis
    want = ref.data_frame(
        int(65535 * basis), int(case["time"] * 1000), elems, case["crc"]
    )
    data, size = queued[0].raw
    same(bytes(data[:size]).hex(), want.hex(), "bytes of a data frame")
    full, full_size = queued[0].with_size_header()
    same(bytes(full).hex(), ref.with_length(want).hex(), "length-prefixed frame")
    same(full_size, len(want) + 4, "size of a length-prefixed frame")
    rec.label(f"elements={min(len(elems), 5)}")
    rec.nontrivial(len({x[1] for x in elems}) >= 2)


def default(prim: str) -> Any:
    """The value of a channel nobody assigned."""
    if prim == "BOOLEAN":
        return False
    return 0 if ref.is_int(prim) else 0.0


# -- single frames ------------------------------------------------------------

fill_cases = st.fixed_dictionaries(
    {
        "mtu": st.one_of(st.integers(53, 70), st.integers(40, 400)),
        "crc": st.booleans(),
        "event": st.booleans(),
        "time": gen.exact_times(2**20),
        "elems": st.lists(
            st.tuples(
                st.integers(0, 65535),
                gen.prims.flatmap(
                    lambda p: st.tuples(
                        st.just(p), gen.value_of(p), gen.value_of(p)
                    )
                ),
                gen.exact_times(),
                gen.exact_times(),
            ),
            max_size=40,
        ),
        "after": st.booleans(),
    }
)


def run_fill(case: Any, rec: Rec) -> None:
    """A frame takes what fits, refuses the rest and stays well formed."""
    framer = Framer(case["mtu"], 0.5, **envs.checksums(case))
    kind = "event" if case["event"] else "data"
    frame = framer.new_frame(kind, case["time"])
    room = case["mtu"] - 15 - (4 if case["crc"] else 0)
    kept = []
    refused = 0
    for ident, (prim, one, two), first, second in case["elems"]:
        size = 2 + ref.size_of(prim)
        if case["event"]:
            size = 2 + 2 * ref.size_of(prim) + 16
            took = frame.add_event(
                ident, Primitive[prim], (one, first), (two, second)
            )
            elem = (
                ident,
                prim,
                one,
                int(first * 1000),
                two,
                int(second * 1000),
            )
        else:
            took = frame.add(ident, Primitive[prim], one)
            elem = (ident, prim, one)
        same(took, size <= room, f"element of {size} with {room} bytes left")
        if took:
            room -= size
            kept.append(elem)
        else:
            refused += 1
        same(frame.space, room, "space left")
    total = frame.finalize()
    check(total <= case["mtu"], f"frame of {total} over MTU {case['mtu']}")
    if case["after"] and case["elems"]:
        # a finalized frame stays as it is
        ident, (prim, one, two), first, second = case["elems"][0]
        if case["event"]:
            took = frame.add_event(
                ident, Primitive[prim], (one, first), (two, second)
            )
        else:
            took = frame.add(ident, Primitive[prim], one)
        same(took, False, "adding to a finalized frame")
        same(frame.finalize(), total, "finalizing twice")
    data, size = frame.raw
    build = ref.event_frame if case["event"] else ref.data_frame
    want = build(32767, int(case["time"] * 1000), kept, case["crc"])
    same(bytes(data[:size]).hex(), want.hex(), f"bytes of the {kind} frame")
    same(size, total, "size of the frame")
    rec.label(kind, "refused" if refused else "all-fit")
    rec.nontrivial(refused > 0 and kept)


# -- message frames and probes ------------------------------------------------

message_cases = st.fixed_dictionaries(
    {
        "mtu": st.one_of(st.integers(31, 60), st.integers(61, 500)),
        "crc": st.booleans(),
        "basis": st.floats(0, 1),
        "time": gen.exact_times(2**20),
        "messages": st.lists(
            st.tuples(
                st.sampled_from([x.value for x in MessageType]),
                st.one_of(
                    st.binary(min_size=1, max_size=60),
                    st.binary(min_size=1, max_size=400),
                ),
            ),
            min_size=1,
            max_size=5,
        ),
    }
)


def run_message(case: Any, rec: Rec) -> None:
    """Message frames are those of the reference, with consecutive numbers."""
    framer = MessageFramer(
        case["mtu"], case["basis"], **envs.checksums(case)
    )
    over = 15 + 11 + (4 if case["crc"] else 0)
    room = case["mtu"] - over
    numbers = {}
    most = 0
    for mtype, message in case["messages"]:
        frames, total = framer.serialize_message(
            message, case["time"], MessageType(mtype)
        )
        number = numbers.setdefault(mtype, 0)
        numbers[mtype] += 1
        count = math.ceil(len(message) / room)
        same(len(frames), count, "frames of a message")
        most = max(most, count)
        size_sum = 0
        for index, frame in enumerate(frames):
            data, size = frame.raw
            check(size <= case["mtu"], f"frame of {size} over the MTU")
            size_sum += size
            want = ref.message_frame(
                int(65535 * case["basis"]),
                int(case["time"] * 1000),
                mtype,
                number,
                zlib.crc32(message),
                index,
                count,
                message[index * room : (index + 1) * room],
                case["crc"],
            )
            same(bytes(data[:size]).hex(), want.hex(), "bytes of a message frame")
        same(total, size_sum, "byte count of a message")
    rec.label(f"fragments={min(most, 4)}")
    rec.nontrivial(most >= 2)


probe_cases = st.fixed_dictionaries(
    {
        "size": st.integers(20, 3000),
        "basis": st.floats(0, 1),
        "bad": st.booleans(),
    }
)


def run_probe(case: Any, rec: Rec) -> None:
    """Probe frames have exactly the requested size and are 'invalid'."""
    frame = build_dummy_frame(case["size"], case["basis"], case["bad"])
    data, size = frame.raw
    same(size, case["size"], "size of a probe frame")
    same(len(data), case["size"], "bytes of a probe frame")
    app_id, ftype, _, count = ref.HEADER.unpack(bytes(data[:15]))
    same(app_id, int(65535 * case["basis"]), "app_id of a probe frame")
    same(ftype, 0, "type of a probe frame")
    same(count, 0, "element count of a probe frame")
    rec.nontrivial()


# -- checksum and time --------------------------------------------------------

crc_cases = st.fixed_dictionaries(
    {
        "data": st.binary(max_size=300),
        "cut": st.one_of(st.none(), st.integers(0, 300)),
        "init": st.sampled_from([0, 0, 1, 0xFFFFFFFF, 0x12345678]),
    }
)


def run_crc(case: Any, rec: Rec) -> None:
    """The checksum is CRC-32 over the requested prefix."""
    cut = case["cut"]
    part = case["data"] if cut is None else case["data"][:cut]
    same(
        lib_crc(case["data"], cut, case["init"]),
        zlib.crc32(part, case["init"]),
        "checksum",
    )
    rec.nontrivial(part)


PROP = Prop(
    "C01",
    [
        Facet(
            "env",
            env_cases,
            run_env,
            2600,
            rule="channels of all types, value changes, MTU changes and "
            "dispatches; non-trivial = a dispatch needed several frames of "
            "one kind",
        ),
        Facet(
            "exact",
            exact_cases,
            run_exact,
            1500,
            rule="one dispatch compared byte for byte with the reference "
            "encoder; non-trivial = at least two channel types",
        ),
        Facet(
            "fill",
            lambda: fill_cases,
            run_fill,
            2000,
            rule="elements added to one frame until it is full; non-trivial = "
            "some were taken and some refused",
        ),
        Facet(
            "message",
            lambda: message_cases,
            run_message,
            1500,
            rule="messages against the reference encoder; non-trivial = more "
            "than one fragment",
        ),
        Facet(
            "probe",
            lambda: probe_cases,
            run_probe,
            400,
            rule="probe frames of every size; all count",
        ),
        Facet(
            "crc",
            lambda: crc_cases,
            run_crc,
            600,
            rule="checksums of prefixes; non-trivial = not empty",
        ),
    ],
    assumptions=[
        "MTUs leave room for one element of the largest channel type",
        "times are not negative (timestamps are unsigned on the wire)",
    ],
)
