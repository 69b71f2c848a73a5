"""C04: stream deframing doesn't depend on how bytes are chunked."""

from __future__ import annotations

import struct
from typing import Any, List

from hypothesis import strategies as st
from vtelem.classes.type_primitive import new_default
from vtelem.frame.processor import FrameProcessor

from vt.core import Facet, Prop, Rec, check, same

cuts = st.lists(
    st.one_of(st.integers(1, 5), st.integers(1, 60), st.integers(1, 400)),
    min_size=1,
    max_size=40,
)
payloads = st.one_of(
    st.binary(max_size=6),
    st.binary(max_size=60),
    st.integers(0, 64).map(lambda x: bytes([x]) * x),
)


def chunked(data: bytes, sizes: List[int]) -> List[bytes]:
    """Split bytes, the sizes repeat."""
    result = []
    pos = num = 0
    while pos < len(data):
        size = sizes[num % len(sizes)]
        result.append(data[pos : pos + size])
        pos += size
        num += 1
    return result


def stream(frames: List[bytes]) -> bytes:
    """Length-prefixed frames."""
    return b"".join(struct.pack(">I", len(x)) + x for x in frames)


cases = st.fixed_dictionaries(
    {
        "frames": st.lists(payloads, min_size=1, max_size=12),
        "cuts": cuts,
        "mtu": st.integers(64, 300),
        "shared": st.booleans(),
        "empty": st.booleans(),
    }
)


def run(case: Any, rec: Rec) -> None:
    """Exactly the frames, whatever the chunks."""
    frames = case["frames"]
    proc = FrameProcessor()
    size = new_default("count")
    got: List[bytes] = []
    chunks = chunked(stream(frames), case["cuts"])
    arrived = 0
    ends = []
    total = 0
    for frame in frames:
        total += 4 + len(frame)
        ends.append(total)
    for chunk in chunks:
        if case["empty"]:
            same(proc.process(b"", size, case["mtu"]), [], "nothing was read")
        if not case["shared"]:
            size = new_default("count")
        new = proc.process(chunk, size, case["mtu"])
        got.extend(bytes(x) for x in new)
        arrived += len(chunk)
        # as soon as all bytes of a frame are there, so is the frame
        same(
            len(got),
            sum(1 for x in ends if x <= arrived),
            f"frames after {arrived} bytes",
        )
    same(got, frames, "frames out of a stream")
    inside = any(
        0 < pos < total and pos not in ends
        for pos in _positions(chunks)
    )
    rec.label("split-inside" if inside else "aligned")
    rec.label(f"chunks={min(len(chunks), 10)}")
    rec.nontrivial(inside and len(frames) > 1)


def _positions(chunks: List[bytes]) -> List[int]:
    pos = 0
    result = []
    for chunk in chunks:
        pos += len(chunk)
        result.append(pos)
    return result


# -- every two-way split ------------------------------------------------------

small = st.fixed_dictionaries(
    {
        "frames": st.lists(st.binary(max_size=12), min_size=1, max_size=5),
        "mtu": st.integers(12, 40),
    }
)


def run_splits(case: Any, rec: Rec) -> None:
    """All splits of a stream in two, and one byte at a time."""
    data = stream(case["frames"])
    for pos in range(len(data) + 1):
        proc = FrameProcessor()
        size = new_default("count")
        got = proc.process(data[:pos], size, case["mtu"])
        got += proc.process(data[pos:], size, case["mtu"])
        same([bytes(x) for x in got], case["frames"], f"frames split at {pos}")
        rec.count("splits")
    proc = FrameProcessor()
    size = new_default("count")
    got = []
    for num in range(len(data)):
        got += proc.process(data[num : num + 1], size, case["mtu"])
    same([bytes(x) for x in got], case["frames"], "frames byte by byte")
    rec.nontrivial(len(data) > 8)


# -- lengths above the limit --------------------------------------------------

over = st.fixed_dictionaries(
    {
        "mtu": st.integers(16, 64),
        "before": st.lists(st.binary(max_size=16), max_size=4),
        "excess": st.one_of(
            st.integers(1, 4),
            st.integers(1, 100),
            st.sampled_from([2**31, 2**32 - 1 - 64]),
        ),
        "junk": st.binary(max_size=40),
        "head": st.integers(1, 8),
        "after": st.lists(st.binary(max_size=16), min_size=1, max_size=5),
        "cuts": cuts,
    }
)


def run_over(case: Any, rec: Rec) -> None:
    """An oversized frame is dropped, what is read afterwards is understood."""
    proc = FrameProcessor()
    size = new_default("count")
    mtu = case["mtu"]
    bad = struct.pack(">I", mtu + case["excess"]) + case["junk"]
    lead = stream(case["before"])
    got: List[bytes] = []
    # the length field itself may arrive in two parts
    first = lead + bad[: min(case["head"], 3)] if case["head"] < 4 else lead
    rest = bad[min(case["head"], 3) :] if case["head"] < 4 else bad
    got += [bytes(x) for x in proc.process(first, size, mtu)]
    got += [bytes(x) for x in proc.process(rest, size, mtu)]
    same(got, case["before"], "frames around an oversized one")
    got = []
    for chunk in chunked(stream(case["after"]), case["cuts"]):
        got += [bytes(x) for x in proc.process(chunk, size, mtu)]
    same(got, case["after"], "frames read after an oversized one")
    rec.label("excess-small" if case["excess"] < 5 else "excess-large")
    rec.nontrivial()


# -- arbitrary bytes ----------------------------------------------------------

noise = st.fixed_dictionaries(
    {
        "chunks": st.lists(
            st.one_of(
                st.binary(max_size=12),
                st.integers(0, 40).map(lambda x: struct.pack(">I", x)),
            ),
            max_size=14,
        ),
        "mtu": st.integers(0, 40),
    }
)


def run_noise(case: Any, rec: Rec) -> None:
    """The processor agrees with a plain model on any bytes."""
    proc = FrameProcessor()
    size = new_default("count")
    held = b""
    for chunk in case["chunks"]:
        want = []
        held += chunk
        while len(held) >= 4:
            length = struct.unpack(">I", held[:4])[0]
            if length > case["mtu"]:
                held = b""
                rec.label("oversized")
                break
            if len(held) < 4 + length:
                break
            want.append(held[4 : 4 + length])
            held = held[4 + length :]
        got = [bytes(x) for x in proc.process(chunk, size, case["mtu"])]
        check(
            all(len(x) <= case["mtu"] for x in got),
            "a frame above the limit was delivered",
        )
        same(got, want, "frames of arbitrary bytes")
        if want:
            rec.nontrivial()


PROP = Prop(
    "C04",
    [
        Facet(
            "chunks",
            lambda: cases,
            run,
            3000,
            rule="frame sequences cut into generated chunks; non-trivial = "
            "several frames and a cut inside one",
        ),
        Facet(
            "splits",
            lambda: small,
            run_splits,
            600,
            rule="all two-way splits of small streams (counter splits) and "
            "byte-wise delivery; non-trivial = more than eight bytes",
        ),
        Facet(
            "oversized",
            lambda: over,
            run_over,
            1500,
            rule="a length above the limit between frames; all count",
        ),
        Facet(
            "noise",
            lambda: noise,
            run_noise,
            2000,
            rule="arbitrary chunks against a plain model; non-trivial = a "
            "frame came out",
        ),
    ],
    more=4,
    assumptions=[
        "after an oversized length everything read so far is dropped, the next "
        "read starts with a length field",
    ],
)
