"""
Preemption injection: one operation runs in a thread that is stopped at one
traced line (or bytecode) of vtelem, another operation then runs in a second
thread until it's done or waits for a lock, then the first one goes on.

Only which interleaving is explored depends on timing, never the verdict: every
interleaving is one real threads can produce.
"""

from __future__ import annotations

import os
import sys
import threading
import time
from typing import Any, Callable, List, Optional, Tuple

import vtelem

from vt.core import Violation

HOME = os.path.dirname(os.path.abspath(vtelem.__file__)) + os.sep
QUIET = 0.003  # a thread that stays at one instruction this long is waiting
DEAD = 20.0


class Runner(threading.Thread):
    """Runs operations, stops at a traced point."""

    def __init__(
        self,
        func: Callable[[], Any],
        at: Optional[int] = None,
        pause: Optional[Callable[[], None]] = None,
        count: bool = False,
        fine: bool = False,
        skip: Tuple[str, ...] = (),
    ) -> None:
        super().__init__(daemon=True)
        # files of vtelem that aren't worth interrupting
        self.skip = skip
        self.func = func
        self.at = at
        self.pause = pause
        self.trace = count or at is not None
        self.fine = fine
        self.seen = 0
        self.result: Any = None
        self.where = ""
        self.done = threading.Event()
        self.out: List[str] = []

    def _local(self, frame: Any, event: str, arg: Any) -> Any:
        """Trace one frame."""
        del arg
        if self.fine:
            if event == "opcode":
                self._point(frame)
        elif event == "line":
            self._point(frame)
        return self._local

    def _point(self, frame: Any) -> None:
        """A possible preemption."""
        if self.at is not None and self.seen == self.at:
            self.seen += 1
            sys.settrace(None)
            self.where = (
                f"{os.path.relpath(frame.f_code.co_filename, HOME)}:"
                f"{frame.f_lineno} ({frame.f_code.co_name})"
            )
            assert self.pause is not None
            self.pause()
            return
        self.seen += 1

    def _global(self, frame: Any, event: str, arg: Any) -> Any:
        """Only frames of vtelem are traced."""
        del event, arg
        if self.at is not None and self.seen > self.at:
            return None
        if not frame.f_code.co_filename.startswith(HOME):
            return None
        if self.skip and frame.f_code.co_filename[len(HOME) :].startswith(
            self.skip
        ):
            return None
        if self.fine:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def run(self) -> None:
        """Run the operation."""
        if self.trace:
            sys.settrace(self._global)
        try:
            self.result = self.func()
        except BaseException as exc:  # pylint: disable=broad-except
            self.result = ("raised", type(exc).__name__)
        finally:
            sys.settrace(None)
            self.done.set()

    def waiting(self) -> bool:
        """Whether this thread doesn't make progress."""
        last: Any = None
        since = time.monotonic()
        while not self.done.wait(0.0005):
            frame = sys._current_frames().get(self.ident)
            spot = (id(frame), frame.f_lasti) if frame is not None else None
            now = time.monotonic()
            if spot is None or spot != last:
                last, since = spot, now
            elif now - since > QUIET:
                return True
        return False


def settle(thread: Runner, what: str) -> Any:
    """Wait for an operation."""
    if not thread.done.wait(DEAD):
        frame = sys._current_frames().get(thread.ident)
        spot = ""
        if frame is not None:
            while frame is not None and not frame.f_code.co_filename.startswith(
                HOME
            ):
                frame = frame.f_back
            if frame is not None:
                spot = f" (stuck in {frame.f_code.co_name})"
        raise Violation(f"{what} never returns{spot}", key="stuck")
    return thread.result


def alone(func: Callable[[], Any], what: str) -> Any:
    """Run in a thread of its own, which has to end."""
    thread = Runner(func)
    thread.start()
    return settle(thread, what)


def points(
    func: Callable[[], Any], fine: bool = False, skip: Tuple[str, ...] = ()
) -> int:
    """How many preemption points an operation has."""
    thread = Runner(func, count=True, fine=fine, skip=skip)
    thread.start()
    settle(thread, "an operation")
    return thread.seen


def preempt(
    first: Callable[[], Any],
    second: Callable[[], Any],
    at: int,
    fine: bool = False,
    skip: Tuple[str, ...] = (),
) -> Tuple[Any, Any, str, bool]:
    """
    Results of both, where the first was stopped and whether the second had to
    wait for it.
    """
    other = Runner(second)
    blocked = []

    def pause() -> None:
        """Let the other one run."""
        other.start()
        blocked.append(other.waiting())

    main = Runner(first, at, pause, fine=fine, skip=skip)
    main.start()
    one = settle(main, "the interrupted operation")
    if not blocked:
        other.start()
    two = settle(other, f"the operation that interrupts at {main.where}")
    return one, two, main.where, bool(blocked and blocked[0])


def merges(one: int, two: int) -> List[List[int]]:
    """All orders of the steps of two operations (0: first, 1: second)."""
    if not one or not two:
        return [[0] * one + [1] * two]
    return [[0] + x for x in merges(one - 1, two)] + [
        [1] + x for x in merges(one, two - 1)
    ]


def serial(
    make: Callable[[], Any],
    one: List[Callable[[Any], Any]],
    two: List[Callable[[Any], Any]],
    observe: Callable[[Any], Any],
) -> List[Any]:
    """The outcomes of all orders of atomic steps."""
    result: List[Any] = []
    for order in merges(len(one), len(two)):
        ctx = make()
        outs: Tuple[List[Any], List[Any]] = ([], [])
        left = [list(one), list(two)]
        for who in order:
            step = left[who].pop(0)
            outs[who].append(attempt(step, ctx))
        got = (outs[0], outs[1], observe(ctx))
        if got not in result:
            result.append(got)
    return result


def attempt(step: Callable[[Any], Any], ctx: Any) -> Any:
    """The result of a step, or how it failed."""
    try:
        return step(ctx)
    except Exception as exc:  # pylint: disable=broad-except
        return ("raised", type(exc).__name__)


def difference(got: Any, allowed: List[Any]) -> str:
    """What differs from every allowed outcome, for a reader."""
    out = []
    for num, want in enumerate(allowed):
        parts = []
        for label, one, two in zip(("first", "second"), got[:2], want[:2]):
            if one != two:
                parts.append(f"{label} returns {one} instead of {two}")
        one, two = got[2], want[2]
        if isinstance(one, dict) and isinstance(two, dict):
            for key in one:
                if one[key] != two.get(key):
                    parts.append(
                        f"{key} is {one[key]!r} instead of {two.get(key)!r}"
                    )
        elif one != two:
            parts.append(f"state is {one!r} instead of {two!r}")
        out.append(f"[order {num}: " + "; ".join(parts) + "]")
    return " ".join(out)


def explore(
    make: Callable[[], Any],
    one: List[Callable[[Any], Any]],
    two: List[Callable[[Any], Any]],
    observe: Callable[[Any], Any],
    picks: List[float],
    fine: bool = False,
    limit: int = 40,
    rec: Any = None,
    what: str = "",
) -> int:
    """
    Preempt the first operation by the second one at many points, the outcome
    is always one of an order of their steps.
    """
    allowed = serial(make, one, two, observe)
    ctx = make()
    total = points(lambda: [attempt(x, ctx) for x in one], fine)
    if total <= limit:
        spots = list(range(total))
    else:
        spots = sorted({int(x * total) for x in picks})
    for spot in spots:
        ctx = make()
        got_one, got_two, where, blocked = preempt(
            lambda: [attempt(x, ctx) for x in one],
            lambda: [attempt(x, ctx) for x in two],
            spot,
            fine,
        )
        state = sees(ctx, observe)
        got = (got_one, got_two, state)
        if got not in allowed:
            raise Violation(
                f"{what}: interrupted at {where}: results and state agree "
                f"with no order of both: {difference(got, allowed)}",
                key="interleaving",
            )
        if rec is not None:
            rec.count("schedules")
            if blocked:
                rec.count("second-waited")
    return len(spots)


def sees(ctx: Any, observe: Callable[[Any], Any]) -> Any:
    """Observe in a thread, so that a lock that's still held is found."""
    return alone(lambda: observe(ctx), "looking at the state afterwards")
