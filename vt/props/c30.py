"""C30: a byte buffer behaves as a plain sequence of bytes with a position."""

from __future__ import annotations

import struct
import zlib
from typing import Any, Optional

from hypothesis import strategies as st
from vtelem.classes.byte_buffer import ByteBuffer
from vtelem.classes.type_primitive import TypePrimitive
from vtelem.enums.primitive import Primitive

from vt import gen, ref
from vt.core import Facet, Prop, Rec, check, same, short

ORDERS = ["!", ">", "<"]


def size_of(prim: str) -> int:
    """Bytes of a type."""
    return len(ref.pack(prim, ref_default(prim)))


def ref_default(prim: str) -> Any:
    """A value of any type."""
    if prim == "BOOLEAN":
        return False
    return 0.0 if prim in ("FLOAT", "DOUBLE") else 0


def encode(prim: str, value: Any, order: str) -> bytes:
    """The bytes of one value (the reference is big-endian)."""
    data = ref.pack(prim, value)
    return data if order != "<" else data[::-1]


def decode(prim: str, data: bytes, order: str) -> Any:
    """The value of some bytes."""
    raw = bytes(data) if order != "<" else bytes(data)[::-1]
    return ref.unpack(prim, raw)


def alike(left: Any, right: Any) -> bool:
    """Equal, NaN is itself, and of the same type."""
    if isinstance(left, float) and isinstance(right, float):
        return struct.pack(">d", left) == struct.pack(">d", right) or (
            left != left and right != right
        )
    return type(left) is type(right) and left == right


# -- one buffer, any operations -----------------------------------------------

values = gen.any_value()
unfit = st.sampled_from(
    [
        ("INT8", 128),
        ("INT8", -129),
        ("UINT8", -1),
        ("UINT16", 65536),
        ("INT64", 2**63),
        ("UINT64", -1),
        ("INT32", "5"),
        ("UINT32", 1.5),
        ("FLOAT", 1e300),
        ("DOUBLE", None),
    ]
)
chunks = st.binary(max_size=12)
places = gen.weighted(
    (3, st.tuples(st.just("at"), st.integers(0, 40))),
    (2, st.tuples(st.just("end"), st.integers(-9, 9))),
    (1, st.tuples(st.just("at"), st.just(0))),
)
steps = gen.weighted(
    (6, st.tuples(st.just("write"), values, st.booleans(), st.none() | places)),
    (1, st.tuples(st.just("unfit"), unfit)),
    (5, st.tuples(st.just("read"), gen.prims, st.booleans(), st.none() | places)),
    (2, st.tuples(st.just("chomp"), gen.prims, st.booleans(), st.booleans())),
    (3, st.tuples(st.just("bytes"), st.integers(0, 12), st.booleans())),
    (1, st.tuples(st.just("rest"), st.booleans())),
    (4, st.tuples(st.just("append"), chunks, st.none() | st.integers(0, 14))),
    (3, st.tuples(st.just("pos"), places)),
    (2, st.tuples(st.just("advance"), st.integers(-6, 12), st.booleans())),
    (2, st.tuples(st.just("within"), places, gen.prims, st.booleans())),
    (1, st.tuples(st.just("reset"))),
)
buffers = gen.weighted(
    (3, st.tuples(st.just("empty"), st.just(b""))),
    (2, st.tuples(st.just("room"), st.integers(0, 40).map(bytes))),
    (2, st.tuples(st.just("filled"), st.binary(max_size=40))),
    (2, st.tuples(st.just("immutable"), st.binary(max_size=40))),
    (1, st.tuples(st.just("immutable array"), st.binary(max_size=40))),
)
histories = st.fixed_dictionaries(
    {
        "buffer": buffers,
        "order": st.sampled_from(ORDERS),
        "steps": st.lists(steps, min_size=1, max_size=40),
    }
)


class Plain:
    """Bytes, a position, and nothing else."""

    def __init__(self, data: bytes, order: str) -> None:
        self.data = bytes(data)
        self.pos = 0
        self.order = order

    def write(self, raw: bytes) -> None:
        """Replace the bytes at the position, zeros fill a gap."""
        base = self.data.ljust(self.pos, b"\0")
        self.data = base[: self.pos] + raw + base[self.pos + len(raw) :]
        self.pos += len(raw)

    def readable(self, count: int) -> bool:
        """If there are as many bytes at the position."""
        return len(self.data) - self.pos >= count

    def read(self, count: int, chomp: bool) -> Optional[bytes]:
        """Bytes at the position; None if there aren't enough."""
        if not self.readable(count) or (chomp and self.pos != 0):
            return None
        result = self.data[self.pos : self.pos + count]
        if chomp:
            self.data = self.data[count:]
        else:
            self.pos += count
        return result

    def append(self, raw: bytes) -> None:
        """The position stays at the end of a buffer with content."""
        follow = self.data and self.pos == len(self.data)
        self.data += raw
        if follow:
            self.pos = len(self.data)

    def advance(self, amount: int, grow: bool) -> None:
        """Move, over zeros if the sequence grows."""
        self.pos += amount
        if grow:
            self.data = self.data.ljust(self.pos, b"\0")


class Session:
    """A buffer next to its model."""

    def __init__(self, kind: str, data: bytes, order: str) -> None:
        self.source: Any = None
        self.mutable = not kind.startswith("immutable")
        self.kind = kind
        self.original = data
        if kind == "empty":
            self.buf = ByteBuffer(order=order)
            self.model = Plain(b"", order)
        elif kind == "room":
            self.buf = ByteBuffer(bytearray(data), order=order)
            self.model = Plain(b"", order)
        else:
            self.source = data if kind == "immutable" else bytearray(data)
            if self.mutable:
                self.source = bytearray(data)
            self.buf = ByteBuffer(self.source, self.mutable, len(data), order)
            self.model = Plain(data, order)
        self.order = order
        self.done: list = []

    def look(self, what: str) -> None:
        """Everything that can be seen is as it should be."""
        buf, model = self.buf, self.model
        where = f"after {what} ({self.kind} buffer)"
        same(buf.size, len(model.data), f"size {where}")
        same(buf.get_pos(), model.pos, f"position {where}")
        same(buf.pos, model.pos, f"position {where}")
        same(bytes(buf.data[: buf.size]), model.data, f"bytes {where}")
        same(buf.remaining, len(model.data) - model.pos, f"remaining {where}")
        same(buf.crc32(), zlib.crc32(model.data), f"crc {where}")
        for prim in ("BOOLEAN", "UINT16", "FLOAT", "INT64"):
            same(
                buf.can_read(Primitive[prim]),
                model.readable(size_of(prim)),
                f"room to read {prim} {where}",
            )
        if not self.mutable:
            same(bytes(self.source), self.original, f"source {where}")

    def resolve(self, place: Any) -> int:
        """A position."""
        how, value = place
        return value if how == "at" else max(0, len(self.model.data) + value)


def step_write(ses: Session, step: Any, rec: Rec) -> str:
    """A value, by itself or as a primitive, here or elsewhere."""
    _, (prim, value), by_elem, place = step
    raw = encode(prim, value, ses.order)
    buf, model = ses.buf, ses.model
    want = len(raw) if ses.mutable else 0
    back = model.pos
    if by_elem:
        elem = TypePrimitive(Primitive[prim])
        check(elem.set(value), f"{prim} refuses {value!r}")
        same(elem.buffer(ses.order), raw, f"encoded {short(value)}")
        pos = None if place is None else ses.resolve(place)
        got = elem.write(buf, pos)
        if ses.mutable:
            if pos is not None:
                model.pos = pos
            model.write(raw)
            if pos is not None:
                model.pos = back
                rec.label("written elsewhere")
    else:
        got = buf.write(Primitive[prim], value)
        if ses.mutable:
            model.write(raw)
    same(got, want, f"bytes written of {prim}")
    return f"writing {value!r} as {prim}"


def step_unfit(ses: Session, step: Any, rec: Rec) -> str:
    """A value that the type can't hold."""
    prim, value = step[1]
    try:
        got = ses.buf.write(Primitive[prim], value)
    except Exception:  # pylint: disable=broad-except
        got = -1
    check(got == -1 or not ses.mutable, f"{prim} {value!r} was written: {got}")
    rec.label("doesn't fit")
    return f"writing {value!r} as {prim}"


def step_read(ses: Session, step: Any, rec: Rec) -> str:
    """A value that is there or isn't."""
    name, prim, by_elem = step[0], step[1], step[2]
    buf, model = ses.buf, ses.model
    place = step[3] if name == "read" else None
    chomp = name == "chomp"
    if chomp and step[3]:
        buf.set_pos(0)
        model.pos = 0
    before, kept = model.pos, model.data
    pos = None
    elem = TypePrimitive(Primitive[prim])
    start = elem.get()
    if by_elem and place is not None:
        pos = ses.resolve(place)
        model.pos = pos
    size = size_of(prim)
    raw = model.read(size, chomp)
    if chomp and not ses.mutable:
        raw, model.data, model.pos = None, kept, before
    if pos is not None:
        model.pos = before
        rec.label("read elsewhere")
    try:
        if by_elem:
            got = elem.read(buf, pos, chomp)
        else:
            got = buf.read(Primitive[prim], chomp)
        failed = None
    except Exception as exc:  # pylint: disable=broad-except
        failed, got = exc, None
    what = f"{'consuming' if chomp else 'reading'} {prim}"
    if raw is None:
        rec.count("refused reads")
        check(failed is not None, f"{what} of nothing gave {got!r}")
        if by_elem:
            check(alike(elem.get(), start), f"refused {what} set {elem.get()}")
        return f"refused {what}"
    check(failed is None, f"{what} raised {failed!r}")
    want = decode(prim, raw, ses.order)
    check(alike(got, want), f"{what} gave {got!r} instead of {want!r}")
    if by_elem:
        check(alike(elem.get(), want), f"{what} left {elem.get()!r}")
    rec.count("consumed" if chomp else "values read")
    return what


def step_bytes(ses: Session, step: Any, rec: Rec) -> str:
    """A number of bytes, or all the rest."""
    buf, model = ses.buf, ses.model
    if step[0] == "rest":
        count, chomp = max(0, len(model.data) - model.pos), step[1]
    else:
        count, chomp = step[1], step[2]
    kept, before = model.data, model.pos
    raw = model.read(count, chomp)
    if chomp and not ses.mutable:
        raw, model.data, model.pos = None, kept, before
    try:
        got = buf.read_bytes(count, chomp)
        failed = None
    except Exception as exc:  # pylint: disable=broad-except
        failed, got = exc, b""
    what = f"{'consuming' if chomp else 'reading'} {count} bytes"
    if raw is None:
        rec.count("refused reads")
        check(failed is not None, f"{what} gave {bytes(got)!r}")
        return f"refused {what}"
    check(failed is None, f"{what} raised {failed!r}")
    same(bytes(got), raw, what)
    rec.count("consumed" if chomp else "values read")
    return what


def step_append(ses: Session, step: Any, rec: Rec) -> str:
    """Bytes, or a number of them, behind the last one."""
    _, raw, length = step
    used = raw if length is None else raw[:length]
    if ses.mutable:
        got = ses.buf.append(raw, length)
        same(got, len(used), "bytes appended")
        if ses.model.data and ses.model.pos == len(ses.model.data):
            rec.label("position follows")
        ses.model.append(used)
    else:
        try:
            ses.buf.append(raw, length)
        except AssertionError:
            pass
        rec.label("immutable refuses to grow")
    return f"appending {len(used)} bytes"


def step_move(ses: Session, step: Any, rec: Rec) -> str:
    """Another position."""
    buf, model = ses.buf, ses.model
    if step[0] == "pos":
        model.pos = ses.resolve(step[1])
        buf.set_pos(model.pos)
    else:
        amount, grow = max(step[1], -model.pos), step[2]
        buf.advance(amount, grow)
        model.advance(amount, grow and ses.mutable)
    if model.pos > len(model.data):
        rec.label("beyond the end")
    return f"moving to {model.pos}"


def step_within(ses: Session, step: Any, rec: Rec) -> str:
    """A look elsewhere, that may fail, and back."""
    pos, prim, fail = ses.resolve(step[1]), step[2], step[3]
    model = ses.model
    back = model.pos
    model.pos = pos
    raw = model.read(size_of(prim), False)
    after = model.pos
    model.pos = back
    got: Any = None
    try:
        with ses.buf.with_pos(pos):
            same(ses.buf.get_pos(), pos, "position inside")
            if fail:
                raise KeyError("on purpose")
            if ses.buf.can_read(Primitive[prim]):
                got = ses.buf.read(Primitive[prim])
            same(ses.buf.get_pos(), after, "position inside, after reading")
    except KeyError:
        rec.label("failed elsewhere")
        return "a failure elsewhere"
    if raw is None:
        same(got, None, "read elsewhere")
    else:
        want = decode(prim, raw, ses.order)
        check(alike(got, want), f"read {got!r} elsewhere, not {want!r}")
    return f"a visit to {pos}"


def step_reset(ses: Session, _step: Any, rec: Rec) -> str:
    """Everything is forgotten, if that's possible."""
    try:
        ses.buf.reset()
        failed = False
    except AssertionError:
        failed = True
    if ses.mutable:
        check(not failed, "reset was refused")
        rec.label("reset away from the start" if ses.model.pos else "reset")
        ses.model.data, ses.model.pos = b"", 0
    else:
        check(failed, "an immutable buffer was reset")
    return "a reset"


STEPS = {
    "write": step_write,
    "unfit": step_unfit,
    "read": step_read,
    "chomp": step_read,
    "bytes": step_bytes,
    "rest": step_bytes,
    "append": step_append,
    "pos": step_move,
    "advance": step_move,
    "within": step_within,
    "reset": step_reset,
}


def run_history(case: Any, rec: Rec) -> None:
    """The buffer and the model agree after every step."""
    kind, data = case["buffer"]
    ses = Session(kind, data, case["order"])
    ses.look("construction")
    for step in case["steps"]:
        ses.look(STEPS[step[0]](ses, step, rec))
    rec.label(kind, f"order {case['order']}")
    reads = rec.notes.get("values read", 0) + rec.notes.get("consumed", 0)
    rec.nontrivial(reads >= 2)


# -- values through a buffer --------------------------------------------------

streams = st.fixed_dictionaries(
    {
        "order": st.sampled_from(ORDERS),
        "values": st.lists(values, min_size=1, max_size=20),
        "cuts": st.lists(st.integers(0, 9), max_size=60),
        "room": st.integers(0, 30),
        "elems": st.booleans(),
    }
)


def run_stream(case: Any, rec: Rec) -> None:
    """What goes in comes out, at once or in pieces."""
    order, items = case["order"], case["values"]
    first = ByteBuffer(bytearray(case["room"]), order=order)
    want = b"".join(encode(p, v, order) for p, v in items)
    for prim, value in items:
        if case["elems"]:
            elem = TypePrimitive(Primitive[prim])
            check(elem.set(value), f"{prim} refuses {value!r}")
            elem.write(first)
        else:
            first.write(Primitive[prim], value)
    same(first.size, len(want), "size after writing")
    raw = bytes(first.data[: first.size])
    same(raw, want, "bytes after writing")
    first.set_pos(0)
    held = [decode(p, encode(p, v, order), order) for p, v in items]
    for (prim, _), value in zip(items, held):
        got = first.read(Primitive[prim])
        check(alike(got, value), f"{prim} {value!r} is read as {got!r}")
    check(not first.can_read(Primitive.BOOLEAN), "there's more than was written")
    same(bytes(first.data[: first.size]), want, "bytes after reading")

    # a second buffer gets the same bytes in pieces, consumed when complete
    second = ByteBuffer(order=order)
    todo = list(zip([p for p, _ in items], held))
    cuts, held_back = list(case["cuts"]), 0
    while raw or todo:
        size = cuts.pop(0) if cuts else len(raw)
        piece, raw = raw[:size], raw[size:]
        second.append(piece)
        while todo and second.can_read(Primitive[todo[0][0]]):
            prim, value = todo.pop(0)
            if case["elems"]:
                got = TypePrimitive(Primitive[prim]).read(second, chomp=True)
            else:
                got = second.read(Primitive[prim], True)
            check(alike(got, value), f"{prim} {value!r} arrived as {got!r}")
        held_back += bool(todo and second.size)
        if not raw and not cuts:
            break
    same(len(todo), 0, "values that never arrived")
    same(second.size, 0, "bytes left over")
    rec.label(f"order {order}", "pieces" if case["cuts"] else "at once")
    rec.count("incomplete values", held_back)
    rec.nontrivial(len(items) > 1)


PROP = Prop(
    "C30",
    [
        Facet(
            "operations",
            lambda: histories,
            run_history,
            6000,
            rule="at least two reads succeeded",
        ),
        Facet(
            "streams",
            lambda: streams,
            run_stream,
            4000,
            rule="several values went through the buffers",
        ),
    ],
    more=2,
    assumptions=[
        "positions aren't negative, lengths of appended data neither",
    ],
)
