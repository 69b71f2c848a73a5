"""Run cases in a process of their own, with a network of its own."""

from __future__ import annotations

import fcntl
import gc
import json
import os
import socket
import struct
import traceback
from typing import Any, Callable, Dict

from vt.core import HarnessError, Rec, Violation, understood

LARGEST = 65535


def control(request: int, data: bytes) -> bytes:
    """Something about the loopback interface."""
    with socket.socket(socket.AF_INET, socket.SOCK_DGRAM) as sock:
        return fcntl.ioctl(sock, request, data)


def set_limit(value: int) -> None:
    """How large packets on the loopback interface may be."""
    control(0x8922, struct.pack("16si12x", b"lo", value))


def get_limit() -> int:
    """How large packets on the loopback interface may be."""
    raw = control(0x8921, struct.pack("16si12x", b"lo", 0))
    return min(struct.unpack("16si12x", raw)[1], LARGEST)


def isolate() -> bool:
    """Leave the machine's network for an own one (this process only)."""
    try:
        os.unshare(os.CLONE_NEWUSER | os.CLONE_NEWNET)
        control(0x8914, struct.pack("16sh14x", b"lo", 1 | 8 | 64))
    except OSError:
        return False
    return True


def child(func: Callable[[Rec, bool], None], rec: Rec, pipe: int) -> None:
    """Run something and report what happened."""
    out: Dict[str, Any] = {}
    gc.freeze()
    try:
        func(rec, isolate())
    except Violation as exc:
        out["violation"] = [str(exc), exc.key]
    except BaseException as exc:  # pylint: disable=broad-except
        found = understood(exc)
        if found is not None:
            out["violation"] = [str(found), found.key]
        else:
            out["error"] = traceback.format_exc()
    out["labels"] = rec.labels
    out["notes"] = rec.notes
    out["interesting"] = bool(rec.interesting)
    data = json.dumps(out).encode()
    while data:
        data = data[os.write(pipe, data) :]


def apart(func: Callable[[Rec, bool], None], rec: Rec) -> None:
    """Run something in a process with a network of its own."""
    left, right = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(left)
            child(func, Rec(), right)
        finally:
            os._exit(0)
    os.close(right)
    data = b""
    with open(left, "rb") as stream:
        data = stream.read()
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError("no report from the isolated process")
    out = json.loads(data)
    if "error" in out:
        raise HarnessError(out["error"])
    rec.label(*out["labels"])
    for key, value in out["notes"].items():
        rec.count(key, value)
    rec.nontrivial(out["interesting"])
    if "violation" in out:
        raise Violation(out["violation"][0], key=out["violation"][1])
