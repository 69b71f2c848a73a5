"""Small helpers around sockets and waiting. No oracle depends on time."""

from __future__ import annotations

import contextlib
import socket
import time
from typing import Any, Callable, Iterator

from vt.core import Violation

LIMIT = 30.0


class Scope(contextlib.ExitStack):
    """Closes everything a case opened."""

    def socket(self, *args: Any) -> socket.socket:
        """A socket closed at the end of the case."""
        sock = socket.socket(*args)
        sock.settimeout(LIMIT)
        self.callback(sock.close)
        return sock


@contextlib.contextmanager
def scope() -> Iterator[Scope]:
    """A case's resources."""
    with Scope() as stack:
        yield stack


def until(cond: Callable[[], Any], limit: float = LIMIT) -> bool:
    """Poll for a condition, whether it came true."""
    end = time.monotonic() + limit
    pause = 0.0002
    while time.monotonic() < end:
        if cond():
            return True
        time.sleep(pause)
        pause = min(pause * 1.5, 0.01)
    return bool(cond())


def wait(cond: Callable[[], Any], what: str, limit: float = LIMIT) -> None:
    """Wait for something that has to happen first."""
    if not until(cond, limit):
        raise Violation(f"waited {limit:.0f} s for {what}", key="stuck")
