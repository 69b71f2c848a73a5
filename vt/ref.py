"""
An independent codec for the wire format, written from docs/message.md,
docs/primitive.md and docs/message_type.md with nothing but struct and zlib.
"""

from __future__ import annotations

import struct
import zlib
from typing import Any, Dict, List, Optional, Tuple

# name -> (struct code, size)
PRIMS: Dict[str, Tuple[str, int]] = {
    "BOOLEAN": ("?", 1),
    "INT8": ("b", 1),
    "UINT8": ("B", 1),
    "INT16": ("h", 2),
    "UINT16": ("H", 2),
    "INT32": ("i", 4),
    "UINT32": ("I", 4),
    "INT64": ("q", 8),
    "UINT64": ("Q", 8),
    "FLOAT": ("f", 4),
    "DOUBLE": ("d", 8),
}
DATA, EVENT, INVALID, MESSAGE, STREAM = 1, 2, 0, 3, 4
HEADER = struct.Struct(">HBQI")
CRC = struct.Struct(">I")
MSG = struct.Struct(">BHIHH")


class Malformed(Exception):
    """The bytes aren't a frame."""


def pack(prim: str, value: Any) -> bytes:
    """Encode one value."""
    return struct.pack(">" + PRIMS[prim][0], value)


def unpack(prim: str, data: bytes) -> Any:
    """Decode one value."""
    return struct.unpack(">" + PRIMS[prim][0], data)[0]


def size_of(prim: str) -> int:
    """Bytes taken by a primitive."""
    return PRIMS[prim][1]


def bounds(prim: str) -> Tuple[int, int]:
    """The integer range of a primitive."""
    code, size = PRIMS[prim]
    bits = size * 8
    if code.isupper():
        return 0, (1 << bits) - 1
    return -(1 << (bits - 1)), (1 << (bits - 1)) - 1


def is_int(prim: str) -> bool:
    """Whether a primitive is an integer."""
    return PRIMS[prim][0] not in "?fd"


def frame(
    app_id: int, ftype: int, stamp: int, size: int, body: bytes, crc: bool
) -> bytes:
    """A complete frame (without the length field)."""
    data = HEADER.pack(app_id, ftype, stamp, size) + body
    if crc:
        data += CRC.pack(zlib.crc32(data))
    return data


def with_length(data: bytes) -> bytes:
    """Prefix a frame with its length."""
    return CRC.pack(len(data)) + data


def data_frame(
    app_id: int, stamp: int, elems: List[Tuple[int, str, Any]], crc: bool
) -> bytes:
    """A data frame: identifiers, then values."""
    body = b"".join(struct.pack(">H", x[0]) for x in elems)
    body += b"".join(pack(x[1], x[2]) for x in elems)
    return frame(app_id, DATA, stamp, len(elems), body, crc)


def event_frame(
    app_id: int,
    stamp: int,
    elems: List[Tuple[int, str, Any, int, Any, int]],
    crc: bool,
) -> bytes:
    """An event frame: identifiers, then (prev, time, curr, time)."""
    body = b"".join(struct.pack(">H", x[0]) for x in elems)
    for _, prim, prev, ptime, curr, ctime in elems:
        body += pack(prim, prev) + struct.pack(">Q", ptime)
        body += pack(prim, curr) + struct.pack(">Q", ctime)
    return frame(app_id, EVENT, stamp, len(elems), body, crc)


def message_frame(
    app_id: int,
    stamp: int,
    mtype: int,
    number: int,
    mcrc: int,
    index: int,
    total: int,
    fragment: bytes,
    crc: bool,
) -> bytes:
    """A message frame."""
    body = MSG.pack(mtype, number, mcrc, index, total) + fragment
    return frame(app_id, MESSAGE, stamp, len(fragment), body, crc)


def stream_frame(
    app_id: int,
    stamp: int,
    chan: int,
    index: int,
    prim: str,
    values: List[Any],
    crc: bool,
) -> bytes:
    """A stream frame."""
    body = struct.pack(">HI", chan, index)
    body += b"".join(pack(prim, x) for x in values)
    return frame(app_id, STREAM, stamp, len(values), body, crc)


class Reader:
    """Consumes bytes from the front."""

    def __init__(self, data: bytes) -> None:
        self.data = bytes(data)
        self.pos = 0

    def take(self, count: int) -> bytes:
        """Some number of bytes."""
        if self.pos + count > len(self.data):
            raise Malformed(f"truncated at {self.pos}+{count}")
        result = self.data[self.pos : self.pos + count]
        self.pos += count
        return result

    @property
    def left(self) -> int:
        """How much is left."""
        return len(self.data) - self.pos


def parse(
    data: bytes,
    types: Dict[int, Tuple[str, bool]],
    crc: Optional[bool] = None,
) -> Dict[str, Any]:
    """
    Decode a frame. 'types' maps channel identifier -> (primitive, is_stream).
    With crc True/False the footer has to be there / be missing, None accepts
    both. Anything after the footer is malformed.
    """
    rd = Reader(data)
    app_id, ftype, stamp, size = HEADER.unpack(rd.take(HEADER.size))
    out: Dict[str, Any] = {
        "app_id": app_id,
        "type": ftype,
        "timestamp": stamp,
        "size": size,
    }

    def chan(ident: int, stream: bool) -> str:
        if ident not in types:
            raise Malformed(f"unknown channel {ident}")
        prim, is_stream = types[ident]
        if is_stream != stream:
            raise Malformed(f"channel {ident} stream={is_stream}")
        return prim

    if ftype in (DATA, EVENT):
        if size * 2 > rd.left:
            raise Malformed("too many elements")
        ids = [struct.unpack(">H", rd.take(2))[0] for _ in range(size)]
        elems: List[Any] = []
        for ident in ids:
            prim = chan(ident, False)
            if ftype == DATA:
                elems.append((ident, rd.take(size_of(prim))))
            else:
                prev = rd.take(size_of(prim))
                ptime = struct.unpack(">Q", rd.take(8))[0]
                curr = rd.take(size_of(prim))
                ctime = struct.unpack(">Q", rd.take(8))[0]
                elems.append((ident, prev, ptime, curr, ctime))
        out["elems"] = elems
    elif ftype == MESSAGE:
        keys = ("mtype", "number", "mcrc", "index", "total")
        out.update(zip(keys, MSG.unpack(rd.take(MSG.size))))
        out["fragment"] = rd.take(size)
    elif ftype == STREAM:
        ident, index = struct.unpack(">HI", rd.take(6))
        prim = chan(ident, True)
        out["id"] = ident
        out["index"] = index
        out["data"] = rd.take(size * size_of(prim))
    elif ftype == INVALID:
        rd.take(rd.left)
        out["crc"] = None
        return out
    else:
        raise Malformed(f"frame type {ftype}")

    out["crc"] = None
    if crc is False:
        if rd.left:
            raise Malformed(f"{rd.left} bytes after the frame")
        return out
    if rd.left == 0 and crc is None:
        return out
    end = rd.pos
    value = CRC.unpack(rd.take(4))[0]
    if value != zlib.crc32(data[:end]):
        raise Malformed("crc")
    if rd.left:
        raise Malformed(f"{rd.left} bytes after the footer")
    out["crc"] = value
    return out


def split_stream(data: bytes) -> List[bytes]:
    """Take a byte stream of length-prefixed frames apart."""
    rd = Reader(data)
    result = []
    while rd.left:
        count = CRC.unpack(rd.take(4))[0]
        result.append(rd.take(count))
    return result
