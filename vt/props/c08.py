"""C08: messages survive fragmentation, reordering and repetition."""

from __future__ import annotations

import json
import math
import zlib
from typing import Any, Dict, List, Tuple

from hypothesis import strategies as st
from vtelem.message.cache import MessageCache
from vtelem.message.framer import MessageFramer
from vtelem.telemetry.environment import TelemetryEnvironment
from vtelem.types.frame import MessageType

from vt.core import Facet, Prop, Rec, check, same, short

TYPES = list(MessageType)
OVERHEAD = 15 + 11


def frame_room(mtu: int, crc: bool) -> int:
    """Message bytes per frame."""
    return mtu - OVERHEAD - (4 if crc else 0)


payloads = st.one_of(
    st.binary(min_size=1, max_size=8),
    st.binary(min_size=1, max_size=80),
    st.tuples(st.integers(0, 255), st.integers(1, 700)).map(
        lambda x: bytes((x[0] + i * i) % 256 for i in range(x[1]))
    ),
    st.integers(1, 300).map(bytes),
    st.just(b""),
)
mtus = st.one_of(st.integers(31, 40), st.integers(31, 120), st.just(1400))

cases = st.fixed_dictionaries(
    {
        "crc": st.booleans(),
        "framers": st.lists(mtus, min_size=1, max_size=2),
        "messages": st.lists(
            st.tuples(st.integers(0, 5), payloads, st.integers(0, 1)),
            min_size=1,
            max_size=6,
        ),
        "again": st.lists(st.integers(0, 5), max_size=2),
        "early": st.lists(st.integers(0, 300), max_size=30),
        "lost": st.lists(st.integers(0, 300), max_size=2),
        "stride": st.integers(1, 400),
        "extra": st.lists(st.integers(0, 300), max_size=6),
    }
)


class Track:
    """What a receiver has to know: a model of arrivals."""

    def __init__(self) -> None:
        self.total: Dict[Tuple[int, int], int] = {}
        self.text: Dict[Tuple[int, int], bytes] = {}
        self.arrived: Dict[Tuple[int, int], set] = {}
        self.numbers: Dict[Tuple[int, int], set] = {}

    def complete(self) -> set:
        """Messages of which everything has arrived."""
        return {
            k for k, v in self.arrived.items() if len(v) == self.total[k]
        }


def compare(cache: Any, track: Track, what: str) -> None:
    """The cache and the model agree about every message."""
    done = track.complete()
    for mtype in TYPES:
        have = cache.complete(mtype)
        want = sorted(k[1] for k in done if k[0] == mtype.value)
        same(sorted(have), want, f"complete {mtype.name} messages {what}")
    for key, text in track.text.items():
        got = cache.content(MessageType(key[0]), key[1])
        if key not in done:
            check(got is None, f"incomplete message has contents {what}")
            continue
        check(got is not None, f"complete message has no contents {what}")
        same(bytes(got[1]), text, f"contents {what}")
        check(
            got[0] in track.numbers[key],
            f"number {got[0]} was never sent ({track.numbers[key]})",
        )


def order_of(total: int, stride: int) -> List[int]:
    """A permutation."""
    while math.gcd(total, stride) != 1:
        stride += 1
    return [(x * stride) % total for x in range(total)]


def run(case: Any, rec: Rec) -> None:
    """Deliver the frames of some messages by some schedule."""
    env = TelemetryEnvironment(64, 0.0, app_id_basis=0.5, use_crc=case["crc"])
    framers = [MessageFramer(x, 0.5, case["crc"]) for x in case["framers"]]
    track = Track()
    frames: List[Any] = []
    fragmented = 0
    counts: Dict[Any, int] = {}
    sends = list(case["messages"])
    for num in case["again"]:
        sends.append(case["messages"][num % len(case["messages"])])
    sizes: Dict[Any, int] = {}
    for num, (kind, text, which) in enumerate(sends):
        mtype = TYPES[kind]
        key = (mtype.value, zlib.crc32(text))
        # a message is only ever sent with one fragmentation here
        which = sizes.setdefault(key, which % len(framers))
        out, total = framers[which].serialize_message(
            text, float(num), mtype
        )
        room = frame_room(case["framers"][which], case["crc"])
        same(len(out), max(1, -(-len(text) // room)), "frames of a message")
        same(total, sum(x.used for x in out), "bytes of a message")
        number = counts.get((which, kind), 0)
        counts[(which, kind)] = number + 1
        fragmented += len(out) > 1
        track.total[key] = len(out)
        track.text[key] = text
        track.arrived.setdefault(key, set())
        track.numbers.setdefault(key, set())
        for index, frame in enumerate(out):
            data, size = frame.raw
            parsed = env.decode_frame(bytes(data), size)
            check(parsed is not None, "a message frame doesn't decode")
            body = parsed.body
            same(body["message_number"], number, "message number")
            same(body["fragment_index"], index, "fragment index")
            same(body["total_fragments"], len(out), "total fragments")
            frames.append((key, index, number, parsed))

    told: List[Any] = []
    cache = MessageCache(
        rec.tmpdir() + "/cache",
        {MessageType.TEXT: [lambda *x: told.append(("first", x))]},
    )
    for mtype in TYPES:
        cache.add_callback(mtype, lambda *x: told.append(("every", x)))
    same(told, [], "announcements of an empty cache")

    announced: set = set()

    def deliver(pos: int) -> None:
        key, index, number, parsed = frames[pos]
        before = track.complete()
        track.arrived[key].add(index)
        track.numbers[key].add(number)
        cache.ingest(parsed)
        new = track.complete() - before
        every = [x[1] for x in told if x[0] == "every"]
        first = [x[1] for x in told if x[0] == "first"]
        told.clear()
        same(
            [(x[0].value, zlib.crc32(bytes(x[2]))) for x in every],
            sorted(new),
            f"announcements after fragment {index} of {key}",
        )
        same(
            first,
            [x for x in every if x[0] is MessageType.TEXT],
            "announcements to a consumer registered at creation",
        )
        for mtype, number_, text in every:
            key_ = (mtype.value, zlib.crc32(bytes(text)))
            same(bytes(text), track.text[key_], "announced contents")
            check(number_ in track.numbers[key_], "announced number")
            announced.add(key_)

    lost = {x % len(frames) for x in case["lost"]}
    for pos in case["early"]:
        if pos % len(frames) not in lost:
            deliver(pos % len(frames))
    compare(cache, track, "midway")
    for pos in order_of(len(frames), case["stride"]):
        if pos not in lost:
            deliver(pos)
    compare(cache, track, "after all frames")
    for pos in case["extra"]:
        if pos % len(frames) not in lost:
            deliver(pos % len(frames))
    compare(cache, track, "after repetitions")
    same(announced, track.complete(), "announced messages")
    rec.label("lost" if lost else "lossless")
    rec.label(f"messages>={min(len(track.total), 4)}")
    if any(not x for x in track.text.values()):
        rec.label("empty-message")
    rec.count("frames", len(frames))
    rec.nontrivial(fragmented > 0 and len(frames) > 3)


# -- text, JSON and objects ---------------------------------------------------

texts = st.text(
    alphabet=st.characters(codec="utf-8", exclude_categories=("Cs",)),
    min_size=0,
    max_size=120,
)
documents = st.dictionaries(
    st.text(max_size=6),
    st.recursive(
        st.one_of(
            st.none(),
            st.booleans(),
            st.integers(-(2**60), 2**60),
            st.floats(allow_nan=False, allow_infinity=False),
            texts,
        ),
        lambda x: st.one_of(
            st.lists(x, max_size=3), st.dictionaries(texts, x, max_size=3)
        ),
        max_leaves=8,
    ),
    max_size=5,
)
objects = st.fixed_dictionaries(
    {
        "mtu": mtus,
        "crc": st.booleans(),
        "text": texts,
        "doc": documents,
        "reverse": st.booleans(),
        "sort": st.booleans(),
        "encoder": st.booleans(),
    }
)


class Special:
    """Something that JSON doesn't know."""


class Encoder(json.JSONEncoder):
    """Knows it."""

    def default(self, o: Any) -> Any:
        """What it becomes."""
        return "special" if isinstance(o, Special) else list(o)


def run_objects(case: Any, rec: Rec) -> None:
    """The convenience serializers carry what they are given."""
    env = TelemetryEnvironment(64, 0.0, app_id_basis=0.5, use_crc=case["crc"])
    framer = MessageFramer(case["mtu"], 0.5, case["crc"])
    sent = [
        (MessageType.TEXT, framer.serialize_message_str(case["text"], 1.0)),
        (
            MessageType.JSON,
            framer.serialize_message_json(
                (
                    {"doc": case["doc"], "odd": {Special()}}
                    if case["encoder"]
                    else case["doc"]
                ),
                2.0,
                cls=Encoder if case["encoder"] else None,
                sort_keys=case["sort"],
            ),
        ),
    ]
    doc = case["doc"]
    if case["encoder"]:
        doc = {"doc": doc, "odd": ["special"]}
    cache = MessageCache(rec.tmpdir() + "/cache")
    most = 0
    for mtype, (frames, _) in sent:
        most = max(most, len(frames))
        order = reversed(list(frames)) if case["reverse"] else frames
        for frame in order:
            data, size = frame.raw
            parsed = env.decode_frame(bytes(data), size)
            check(parsed is not None, "a message frame doesn't decode")
            same(parsed.body["message_type"], mtype.value, "message type")
            cache.ingest(parsed)
    for mtype, _ in sent:
        done = cache.complete(mtype)
        same(len(done), 1, f"complete {mtype.name} messages")
        got = cache.content_str(mtype, done[0])
        check(got is not None, "no contents")
        if mtype is MessageType.TEXT:
            same(got[1], case["text"], "text")
        else:
            same(json.loads(got[1]), doc, "JSON document")
    rec.nontrivial(most > 1)


# -- messages that cannot be sent ---------------------------------------------


@st.composite
def impossible(draw: Any) -> Any:
    """Frames too small, too many fragments, numbers at their end."""
    kind = draw(st.sampled_from(["mtu", "mtu", "many", "number"]))
    crc = draw(st.booleans())
    case: Dict[str, Any] = {
        "kind": kind,
        "crc": crc,
        "mtype": draw(st.integers(0, 5)),
    }
    if kind == "mtu":
        case["mtu"] = draw(st.integers(20, 34))
        case["text"] = draw(st.binary(min_size=1, max_size=50))
    elif kind == "many":
        case["room"] = draw(st.integers(1, 2))
        case["excess"] = draw(st.sampled_from([0, 0, 1, 2, 3]))
    else:
        case["start"] = draw(st.integers(65530, 65535))
        case["amount"] = draw(st.integers(1, 12))
    return case


def run_impossible(case: Any, rec: Rec) -> None:
    """They are refused, or whole: never sent damaged."""
    mtype = TYPES[case["mtype"]]
    env = TelemetryEnvironment(64, 0.0, app_id_basis=0.5, use_crc=case["crc"])
    if case["kind"] == "mtu":
        room = frame_room(case["mtu"], case["crc"])
        framer = MessageFramer(case["mtu"], 0.5, case["crc"])
        frames = attempt(framer, case["text"], mtype)
        if room <= 0:
            check(
                frames is None,
                f"a message was sent in {0 if frames is None else len(frames)}"
                f" frames of {case['mtu']} bytes",
            )
            rec.label("refused")
        else:
            check(frames is not None, f"refused at MTU {case['mtu']}")
            rebuild(env, frames, case["text"])
            rec.label("accepted")
        rec.nontrivial()
    elif case["kind"] == "many":
        room = case["room"]
        mtu = OVERHEAD + room + (4 if case["crc"] else 0)
        framer = MessageFramer(mtu, 0.5, case["crc"])
        amount = 65535 * room + case["excess"]
        text = (b"0123456789abcde" * (amount // 15 + 1))[:amount]
        frames = attempt(framer, text, mtype)
        if case["excess"] > 0:
            check(frames is None, "a message of more than 65535 frames is sent")
            rec.label("refused")
        else:
            check(frames is not None, "a message of 65535 frames is refused")
            same(len(frames), 65535, "frames")
            last = env.decode_frame(bytes(frames[-1].raw[0]), frames[-1].raw[1])
            same(last.body["total_fragments"], 65535, "total fragments")
            same(last.body["fragment_index"], 65534, "last index")
            rec.label("accepted")
        rec.nontrivial()
    else:
        framer = MessageFramer(64, 0.5, case["crc"])
        framer.message_numbers[mtype] = case["start"]
        for num in range(case["amount"]):
            frames = attempt(framer, bytes([num]), mtype)
            check(frames is not None, "a short message is refused")
            got = env.decode_frame(bytes(frames[0].raw[0]), frames[0].raw[1])
            same(
                got.body["message_number"],
                (case["start"] + num) % 65536,
                "message number",
            )
        rec.label("numbers")
        rec.nontrivial(case["start"] + case["amount"] > 65536)


def attempt(framer: Any, text: bytes, mtype: Any) -> Any:
    """Frames of a message, nothing when it was refused."""
    try:
        return framer.serialize_message(text, 0.0, mtype)[0]
    except (AssertionError, ValueError):
        return None


def rebuild(env: Any, frames: Any, text: bytes) -> None:
    """Join the fragments."""
    got = b""
    for frame in frames:
        parsed = env.decode_frame(bytes(frame.raw[0]), frame.raw[1])
        check(parsed is not None, "a message frame doesn't decode")
        got += bytes(parsed.body["fragment_bytes"])
    same(got, text, "joined fragments")


# -- one message with two fragmentations --------------------------------------

remixed = st.fixed_dictionaries(
    {
        "text": st.one_of(
            st.binary(min_size=2, max_size=60),
            st.integers(2, 200).map(lambda n: bytes(i % 251 for i in range(n))),
        ),
        "rooms": st.tuples(st.integers(1, 30), st.integers(1, 30)),
        "first": st.lists(st.integers(0, 200), max_size=12),
        "mixed": st.lists(
            st.tuples(st.integers(0, 1), st.integers(0, 200)), max_size=20
        ),
        "stride": st.integers(1, 200),
        "reopen": st.booleans(),
    }
)


def run_remixed(case: Any, rec: Rec) -> None:
    """Fragments that don't belong together never make a message."""
    env = TelemetryEnvironment(64, 0.0, app_id_basis=0.5, use_crc=False)
    text = case["text"]
    mtype = MessageType.AGNOSTIC
    sets = []
    for room in case["rooms"]:
        framer = MessageFramer(OVERHEAD + room, 0.5, False)
        frames, _ = framer.serialize_message(text, 0.0, mtype)
        sets.append([env.decode_frame(bytes(x.raw[0]), x.raw[1]) for x in frames])
    told: List[bytes] = []

    def open_cache() -> Any:
        return MessageCache(
            folder, {mtype: [lambda _, __, x: told.append(bytes(x))]}
        )

    folder = rec.tmpdir() + "/cache"
    cache = open_cache()
    fed: List[set] = [set(), set()]

    def feed(which: int, pos: int) -> None:
        pos %= len(sets[which])
        fed[which].add(pos)
        cache.ingest(sets[which][pos])
        check(
            all(x == text for x in told),
            f"announced {short([x for x in told if x != text])} for {text!r}",
        )
        check(len(told) <= 1, "announced twice")
        if told:
            check(
                any(len(fed[x]) for x in (0, 1)),
                "announced without any fragment",
            )

    for pos in case["first"]:
        feed(0, pos)
    for which, pos in case["mixed"]:
        feed(which, pos)
    if case["reopen"]:
        before = list(told)
        cache.write()
        told.clear()
        cache = open_cache()
        same(told, before, "announcements when opening")
    clean = not told
    # sending the message again, twice, always gets it through
    for _ in range(2):
        for pos in order_of(len(sets[1]), case["stride"]):
            feed(1, pos)
    same(told, [text], "announcements after retransmission")
    got = cache.content(mtype, zlib.crc32(text))
    check(got is not None, "no contents after retransmission")
    same(bytes(got[1]), text, "contents")
    rec.label("incomplete-before" if clean else "complete-before")
    rec.nontrivial(len(sets[0]) != len(sets[1]) and clean)


PROP = Prop(
    "C08",
    [
        Facet(
            "schedules",
            lambda: cases,
            run,
            700,
            rule="messages delivered in generated orders with repetitions and "
            "losses; non-trivial = several fragments and more than 3 frames",
        ),
        Facet(
            "documents",
            lambda: objects,
            run_objects,
            150,
            rule="text and JSON documents; non-trivial = more than one frame",
        ),
        Facet(
            "impossible",
            lambda: impossible(),
            run_impossible,
            60,
            rule="messages at the limits of what frames can express; all but "
            "numbers below the limit count",
        ),
        Facet(
            "remixed",
            lambda: remixed,
            run_remixed,
            300,
            rule="fragments of the same message cut differently, mixed; "
            "non-trivial = different amounts of fragments and not complete "
            "before the retransmission",
        ),
    ],
    more=2,
    assumptions=[
        "messages of one type with equal checksums are equal (protocol "
        "document)",
        "a message whose fragments were cut differently before may need to be "
        "sent twice",
    ],
)
