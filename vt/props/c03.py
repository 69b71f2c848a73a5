"""C03: malformed, corrupted and foreign frames are rejected and contained."""

from __future__ import annotations

import json
import queue
import socket
import struct
import zlib
from typing import Any, Optional

from hypothesis import strategies as st
from vtelem.channel import Channel
from vtelem.client import TelemetryClient
from vtelem.client.tcp import TcpClient
from vtelem.client.udp import UdpClient
from vtelem.daemon import DaemonState
from vtelem.enums.primitive import Primitive
from vtelem.mtu import Host
from vtelem.telemetry.environment import TelemetryEnvironment

from vt import gen, net, ref
from vt.core import Facet, Prop, Rec, check, same, short
from vt.props import c02

APP = 32767  # the id of basis 0.5

mutations = st.lists(
    gen.weighted(
        (3, st.tuples(st.just("flip"), st.integers(0, 4000))),
        (2, st.tuples(st.just("cut"), st.integers(0, 400))),
        (2, st.tuples(st.just("byte"), st.integers(0, 400), st.integers(0, 255))),
        (1, st.tuples(st.just("tail"), st.binary(min_size=1, max_size=8))),
        (2, st.tuples(st.just("count"), st.sampled_from([0, 1, 2, 200, 65536, 2**31, 2**32 - 1]))),
        (2, st.tuples(st.just("type"), st.integers(0, 255))),
        (2, st.tuples(st.just("small-type"), st.integers(0, 6))),
        (1, st.tuples(st.just("chan"), st.integers(0, 65535))),
        (2, st.tuples(st.just("recrc"), st.just(0))),
        (1, st.tuples(st.just("burst"), st.integers(0, 400), st.binary(min_size=1, max_size=4))),
    ),
    min_size=1,
    max_size=3,
)


def mutate(data: bytes, steps: Any) -> bytes:
    """Damage a frame."""
    buf = bytearray(data)
    for step in steps:
        kind, arg = step[0], step[1]
        if kind == "tail":
            buf += arg
            continue
        if not buf:
            continue
        if kind == "flip":
            pos = arg % (len(buf) * 8)
            buf[pos // 8] ^= 1 << (pos % 8)
        elif kind == "cut":
            del buf[arg % len(buf) :]
        elif kind == "byte":
            buf[arg % len(buf)] = step[2]
        elif kind == "count" and len(buf) >= 15:
            buf[11:15] = struct.pack(">I", arg)
        elif kind in ("type", "small-type") and len(buf) >= 3:
            buf[2] = arg
        elif kind == "chan" and len(buf) >= 17:
            buf[15:17] = struct.pack(">H", arg)
        elif kind == "recrc" and len(buf) >= 19:
            # a sender that is wrong but consistent
            buf[-4:] = struct.pack(">I", zlib.crc32(bytes(buf[:-4])))
        elif kind == "burst":
            pos = arg % len(buf)
            for num, val in enumerate(step[2]):
                if pos + num < len(buf):
                    buf[pos + num] ^= val
    return bytes(buf)


@st.composite
def cases(draw: Any) -> Any:
    """Valid frames between damaged ones and noise."""
    base = draw(c02.cases())
    for frame in base["frames"]:
        if draw(st.integers(0, 3)):
            frame["app"] = APP
    plan = []
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(
            st.sampled_from(["mutant", "mutant", "mutant", "valid", "noise"])
        )
        if kind == "noise":
            plan.append({"kind": kind, "data": draw(st.binary(max_size=60))})
        else:
            plan.append(
                {
                    "kind": kind,
                    "frame": draw(
                        st.integers(0, len(base["frames"]) - 1)
                    ),
                    "steps": draw(mutations) if kind == "mutant" else [],
                }
            )
    return {
        "table": base["table"],
        "frames": base["frames"],
        "plan": plan,
        "expect": draw(st.booleans()),
    }


def lenient(data: bytes, types: Any) -> Optional[dict]:
    """
    What a receiver may make of some bytes: the frame they start with when
    what follows, if it is long enough to be a footer, matches.
    """
    try:
        body = ref.parse(data, types, None)
        return body
    except ref.Malformed as exc:
        if "after the footer" in str(exc):
            for cut in range(len(data) - 1, 14, -1):
                try:
                    return ref.parse(data[:cut], types, True)
                except ref.Malformed:
                    continue
        # one to three bytes are too few for a footer
        for cut in (1, 2, 3):
            if len(data) > cut:
                try:
                    return ref.parse(data[:-cut], types, False)
                except ref.Malformed:
                    continue
    return None


def agree(result: Any, data: bytes, types: Any, expect: bool) -> bool:
    """A decoder's result is acceptable for these bytes."""
    want = lenient(data, types)
    if len(data) >= 2 and expect:
        if struct.unpack(">H", data[:2])[0] != APP:
            same(result, None, "frame of another application")
            return False
    if result is None:
        if want is not None and want["type"] != ref.INVALID:
            # an intact frame with its footer has to be delivered
            try:
                ref.parse(data, types, None)
            except ref.Malformed:
                return False
            check(False, f"well-formed frame rejected: {short(data.hex())}")
        return False
    if want is None:
        ftype = data[2] if len(data) > 2 else None
        check(
            ftype is not None and ftype > 4 and not result.body.get("valid", True),
            f"malformed frame accepted: {short(data.hex())}",
        )
        return True
    same(int(result.header.type), want["type"], "frame type")
    same(result.header.app_id, want["app_id"], "app_id")
    same(result.header.timestamp, want["timestamp"], "timestamp")
    same(result.footer.crc, want["crc"], "checksum")
    body = result.body
    if want["type"] == ref.DATA:
        have = [
            (x["id"], ref.pack(x["channel"].type.name, x["value"]))
            for x in body["channels"]
        ]
        same(
            [(x[0], _quiet(x[1], types[x[0]][0])) for x in have],
            [(x[0], _quiet(x[1], types[x[0]][0])) for x in want["elems"]],
            "elements",
        )
    elif want["type"] == ref.EVENT:
        have_e = [
            (x["id"], x["previous"]["time"], x["current"]["time"])
            for x in body["events"]
        ]
        same(
            have_e, [(x[0], x[2], x[4]) for x in want["elems"]], "event elements"
        )
    elif want["type"] == ref.MESSAGE:
        same(bytes(body["fragment_bytes"]), want["fragment"], "fragment")
        same(body["message_type"], want["mtype"], "message type")
    elif want["type"] == ref.STREAM:
        same(bytes(body["data"]), want["data"], "stream data")
    return True


def _quiet(data: bytes, prim: str) -> bytes:
    """Payloads of NaN and of booleans other than 0 and 1 aren't kept."""
    if prim == "BOOLEAN":
        return b"\x01" if data != b"\x00" else data
    if prim in ("FLOAT", "DOUBLE"):
        value = ref.unpack(prim, data)
        if value != value:
            return b"nan"
    return data


def setup(case: Any) -> Any:
    """An environment that knows the channels."""
    chans = [
        Channel(f"chan{num}", Primitive[prim], 1.0, is_stream=stream)
        for num, (prim, stream) in enumerate(case["table"])
    ]
    env = TelemetryEnvironment(1024, initial_channels=chans, app_id_basis=0.5)
    types = {num: (x[0], x[1]) for num, x in enumerate(case["table"])}
    return env, types


def blob(case: Any, item: Any) -> bytes:
    """The bytes of one item of the plan."""
    if item["kind"] == "noise":
        return item["data"]
    frame = case["frames"][item["frame"]]
    return mutate(c02.encode(frame, case["table"]), item["steps"])


def run(case: Any, rec: Rec) -> None:
    """Decode a mixture."""
    env, types = setup(case)
    before = env.channel_registry.describe()
    expect = env.app_id if case["expect"] else None
    rejected = accepted = 0
    for item in case["plan"]:
        data = blob(case, item)
        result = env.decode_frame(data, len(data), expect)
        if agree(result, data, types, case["expect"]):
            accepted += 1
        else:
            rejected += 1
        if item["kind"] == "mutant":
            rec.label("mutant-" + ("rejected" if result is None else "accepted"))
    same(env.channel_registry.describe(), before, "the registry after decoding")
    json.loads(before)
    same(env.channel_registry.count(), len(case["table"]), "channels")
    rec.label("both" if rejected and accepted else "one-kind")
    rec.nontrivial(rejected)


# -- exhaustive single-bit damage ---------------------------------------------


def run_bits(case: Any, rec: Rec) -> None:
    """Every single-bit error and every truncation of a frame."""
    env, types = setup(case)
    frame = dict(case["frames"][0])
    frame["app"], frame["crc"] = APP, True
    data = c02.encode(frame, case["table"])
    for pos in range(len(data) * 8):
        buf = bytearray(data)
        buf[pos // 8] ^= 1 << (pos % 8)
        agree(env.decode_frame(bytes(buf), len(buf)), bytes(buf), types, False)
        rec.count("damaged-frames")
    for cut in range(len(data)):
        part = data[:cut]
        agree(env.decode_frame(part, cut), part, types, False)
        rec.count("damaged-frames")
    # the frame itself still arrives
    c02.compare(
        env.decode_frame(data, len(data)), frame, case["table"], len(data)
    )
    rec.label(frame["kind"])
    rec.nontrivial()


# -- clients ------------------------------------------------------------------


def wanted(case: Any, env: Any, types: Any) -> Any:
    """The bytes to send with what the decoder makes of each alone."""
    items = []
    for item in case["plan"]:
        data = blob(case, item)
        result = env.decode_frame(data, len(data), env.app_id)
        agree(result, data, types, True)
        items.append((data, result is not None, result))
    return items


def view(frame: Any) -> Any:
    """What identifies a parsed frame (NaN-safe)."""
    return repr((frame.header, frame.footer, sorted(map(str, frame.body))))


def run_handle(case: Any, rec: Rec) -> None:
    """A client's frame handler delivers exactly the good frames."""
    env, types = setup(case)
    items = wanted(case, env, types)
    out: queue.Queue = queue.Queue()
    client = TelemetryClient("x", out, env.channel_registry, env.app_id)
    count = client.handle_frames([x[0] for x in items])
    good = [view(x[2]) for x in items if x[1]]
    same(count, len(good), "number of decoded frames")
    got = []
    while not out.empty():
        got.append(view(out.get()))
    same(got, good, "frames delivered")
    rec.nontrivial(len(good) < len(items) and good)


@st.composite
def net_cases(draw: Any) -> Any:
    """Traffic for a network client."""
    case = draw(cases())
    case["transport"] = draw(st.sampled_from(["udp", "tcp"]))
    case["raw"] = draw(
        st.lists(
            st.tuples(
                st.integers(0, 6),
                st.one_of(
                    st.just(b""),
                    st.binary(max_size=3),
                    st.binary(max_size=40),
                    st.binary(min_size=4, max_size=12).map(
                        lambda x: b"\x00\x00\x00\x30" + x
                    ),
                ),
            ),
            max_size=3,
        )
    )
    return case


def run_net(case: Any, rec: Rec) -> None:
    """A live client keeps delivering."""
    env, types = setup(case)
    items = wanted(case, env, types)
    last = {
        "kind": "message",
        "app": APP,
        "stamp": 99,
        "crc": True,
        "mtype": 0,
        "number": 65535,
        "index": 0,
        "total": 1,
        "data": b"the end",
    }
    final = c02.encode(last, case["table"])
    out: queue.Queue = queue.Queue()
    args = (out, env.channel_registry, env.app_id, env, 500)
    datagram = case["transport"] == "udp"
    with net.scope() as scope:
        if datagram:
            client: Any = UdpClient(Host("127.0.0.1", 0), *args)
            scope.callback(client.socket.close)
            peer = scope.socket(socket.AF_INET, socket.SOCK_DGRAM)
            peer.connect(client.socket.getsockname())
        else:
            listener = scope.socket(socket.AF_INET, socket.SOCK_STREAM)
            listener.bind(("127.0.0.1", 0))
            listener.listen(1)
            client = TcpClient(Host(*listener.getsockname()), *args)
            scope.callback(client.socket.close)
            peer, _ = listener.accept()
            scope.callback(peer.close)
        check(client.start(), "a client doesn't start")
        net.until(lambda: client.get_state() == DaemonState.RUNNING)
        good = []
        for num, (data, okay, result) in enumerate(items):
            if datagram:
                # datagrams that aren't length-prefixed frames at all
                for pos, raw in case["raw"]:
                    if pos == num:
                        peer.send(raw)
                        rec.label("raw-datagram")
            if len(data) > 500:
                continue
            peer.send(ref.with_length(data))
            if okay:
                good.append(view(result))
        peer.send(ref.with_length(final))
        got = []
        while True:
            try:
                frame = out.get(timeout=20)
            except queue.Empty:
                check(
                    False,
                    "a well-formed frame after malformed ones never arrives "
                    f"({case['transport']}, client {client.get_state()})",
                )
            check(frame is not None, "a client ended its stream")
            if frame.header.timestamp == 99 and bytes(
                frame.body.get("fragment_bytes", b"")
            ) == b"the end":
                break
            got.append(view(frame))
        same(got, good, f"frames delivered over {case['transport']}")
        check(client.stop(), "a client doesn't stop")
    rec.label(case["transport"])
    rec.nontrivial(len(good) < len(items) or case["raw"])


PROP = Prop(
    "C03",
    [
        Facet(
            "decode",
            cases,
            run,
            4000,
            rule="valid frames, structure-aware mutants and noise decoded by "
            "one environment, results compared with a lenient reference "
            "decoder; non-trivial = something was rejected",
        ),
        Facet(
            "bits",
            c02.cases,
            run_bits,
            36,
            rule="every single-bit error and every truncation of a generated "
            "frame (counter damaged-frames); all count",
        ),
        Facet(
            "handle",
            cases,
            run_handle,
            800,
            rule="mixtures given to a client's frame handler; non-trivial = "
            "good and bad frames mixed",
        ),
        Facet(
            "net",
            net_cases,
            run_net,
            400,
            rule="mixtures sent to live UDP and TCP clients; non-trivial = "
            "something malformed was sent",
        ),
    ],
    assumptions=[
        "the checksum footer is optional in the protocol: a mutation that "
        "leaves a complete frame and fewer than four further bytes is valid",
        "over TCP malformed frames are length-prefixed (a wrong length has no "
        "recovery in the protocol)",
    ],
)
