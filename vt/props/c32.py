"""C32: queue consumers handle every element once, in order, until stopped."""

from __future__ import annotations

import threading
import time
from queue import Queue
from typing import Any, Callable, Dict, List, Optional, Tuple

from hypothesis import strategies as st
from vtelem.classes.metered_queue import create
from vtelem.daemon import DaemonState
from vtelem.daemon.command_queue import CommandQueueDaemon
from vtelem.daemon.queue import QueueDaemon
from vtelem.telemetry.environment import TelemetryEnvironment

from vt import gen, net, sched
from vt.core import Facet, Prop, Rec, check, same, short

LIMIT = 20.0
NAME = "consumer"


class Boom(Exception):
    """A handler fails."""


def until(cond: Callable[[], Any], what: str) -> None:
    """Something that has to happen."""
    check(net.until(cond, LIMIT), f"{what} never happens", "stuck")


# elements that look like nothing are elements as well
ODD: List[Any] = [0, "", [], {}, False, 0.0, b"", ()]

acts = st.sampled_from(
    ["ok"] * 8
    + ["odd", "odd", "raise", "again", "again", "own-stop", "fill-stop", "own-pause"]
    + ["own-unpause", "own-start", "own-restart", "hold", "hold"]
)
history_steps = gen.weighted(
    (8, st.tuples(st.just("put"), st.lists(acts, min_size=1, max_size=5))),
    (4, st.tuples(st.just("start"))),
    (3, st.tuples(st.just("stop"))),
    (2, st.tuples(st.just("pause"))),
    (2, st.tuples(st.just("unpause"))),
    (1, st.tuples(st.just("restart"))),
    (1, st.tuples(st.just("none"))),
    (2, st.tuples(st.just("await"))),
    (4, st.tuples(st.just("release"))),
)
histories = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(["queue", "queue", "command"]),
        "env": st.booleans(),
        "size": st.sampled_from([0, 3, 6]),
        "steps": st.lists(history_steps, min_size=5, max_size=30),
    }
)


class World:
    """A consumer, where it is and what the model says."""

    def __init__(self, case: Any, rec: Rec) -> None:
        self.rec = rec
        self.kind = case["kind"]
        env: Any = None
        if case["env"]:
            env = TelemetryEnvironment(256, metrics_rate=1.0, app_id_basis=0.5)
        self.gate = threading.Semaphore(0)
        self.at_gate = False
        self.handled: List[Any] = []
        self.own: List[Any] = []
        self.size = case["size"]
        if self.kind == "command":
            self.daemon: Any = CommandQueueDaemon(NAME, env)
            self.daemon.register_consumer("x", self.work)
            self.size = 256
        else:
            feed = create("feed", env, self.size)
            self.daemon = QueueDaemon(NAME, feed, self.handle, env)
        self.queue: Queue = self.daemon.queue
        self.acts: Dict[int, str] = {}
        self.number = 0
        self.results: List[Any] = []
        # the model
        self.state = "IDLE"
        self.waiting: List[Any] = []
        self.want: List[Any] = []
        self.want_own: List[Any] = []
        self.held = False
        self.busy: Optional[threading.Thread] = None
        self.out: List[Any] = []
        self.awaits: List[Tuple[threading.Thread, bool]] = []

    # called by the daemon

    def work(self, data: Any) -> Any:
        """A command."""
        self.handle((data["number"], data["payload"]))
        return True, str(data["number"])

    def handle(self, elem: Any) -> None:
        """An element."""
        if not (isinstance(elem, tuple) and len(elem) == 2):
            self.handled.append(elem)
            return
        self.handled.append(elem)
        act = self.acts.get(elem[0], "ok")
        if act == "hold":
            self.at_gate = True
            self.gate.acquire(timeout=3 * LIMIT)
            self.at_gate = False
        elif act == "raise":
            raise Boom()
        elif act == "again":
            self.feed(elem[0] + 1000000, "ok")
        elif act == "fill-stop":
            # nobody else makes space for the signal to stop
            num = 0 if self.daemon.get_state() == DaemonState.RUNNING else 300
            while not self.queue.full() and num < 300:
                num += 1
                self.feed(elem[0] + num * 1000000, "ok")
            self.own.append((act, self.daemon.stop()))
        elif act.startswith("own-"):
            self.own.append((act, getattr(self.daemon, act[4:])()))

    # operations

    def feed(self, number: int, act: str) -> None:
        """Enqueue one element."""
        self.acts[number] = act
        if self.kind == "command":
            self.daemon.enqueue(
                {"command": "x", "data": {"number": number, "payload": act}},
                lambda okay, text: self.results.append(text),
            )
        else:
            self.queue.put(self.element(number, act), timeout=LIMIT)

    @staticmethod
    def element(number: int, act: str) -> Any:
        """What is enqueued."""
        return ODD[number % len(ODD)] if act == "odd" else (number, act)

    def put(self, acts: List[str]) -> None:
        """Enqueue some elements."""
        for act in acts:
            if self.kind == "command" and act == "odd":
                act = "ok"
            if self.full(act):
                return
            self.number += 1
            self.waiting.append((self.number, act))
            self.feed(self.number, act)
            self.settle()

    def full(self, act: str = "") -> bool:
        """Whether there's no space (also for what the handler enqueues)."""
        # there has to be space for what handlers enqueue
        need = sum(x is not None and x[1] == "again" for x in self.waiting)
        need += act == "again"
        there = [x[1] for x in self.waiting if x is not None] + [act]
        if need and ("own-stop" in there or "fill-stop" in there):
            return True
        return bool(self.size) and len(self.waiting) + need + 1 > self.size

    def drain(self) -> None:
        """The model of consuming."""
        while self.state != "IDLE" and not self.held and self.waiting:
            elem = self.waiting.pop(0)
            if elem is None:
                self.state = "IDLE"
                break
            number, act = elem
            self.want.append(self.element(number, act))
            if act == "hold":
                self.held = True
            elif act == "again":
                self.waiting.append((number + 1000000, "ok"))
            elif act == "fill-stop":
                num = 0 if self.state == "RUNNING" else 300
                while not self.size or len(self.waiting) < self.size:
                    num += 1
                    if num > 300:
                        break
                    self.waiting.append((number + num * 1000000, "ok"))
                self.want_own.append((act, self.operate("stop")))
                self.rec.label(act)
            elif act.startswith("own-"):
                self.want_own.append((act, self.operate(act[4:])))
                self.rec.label(act)

    def operate(self, oper: str) -> bool:
        """The model of an operation by a handler."""
        if oper == "stop" and self.state == "RUNNING":
            self.state = "STOPPING"
            self.waiting.append(None)
            return True
        if oper == "pause" and self.state == "RUNNING":
            self.state = "PAUSED"
            return True
        if oper == "unpause" and self.state == "PAUSED":
            self.state = "RUNNING"
            return True
        return False

    def settle(self) -> None:
        """Wait until the consumer has done what it can do."""
        self.drain()
        if self.state == "IDLE":
            until(self.idle, "the end of a stopped daemon's thread")
            for thread in [self.busy] if self.busy is not None else []:
                thread.join(LIMIT)
                check(not thread.is_alive(), "stopping never ends", "stuck")
                same(self.out, [True], "result of stopping")
                self.busy = None
        elif self.held:
            until(
                lambda: self.at_gate
                and len(self.handled) >= len(self.want)
                and self.queue.qsize() == len(self.waiting),
                f"handling of {short(self.want[-1])}",
            )
        else:
            until(
                lambda: self.queue.unfinished_tasks <= len(self.waiting)
                and not self.at_gate,
                "handling of all elements",
            )
        self.verify()

    def idle(self) -> bool:
        """Whether the thread has ended."""
        return (
            self.daemon.get_state() == DaemonState.IDLE and not threads(NAME)
        )

    def verify(self) -> None:
        """Compare with the model."""
        same(
            [type(x) for x in self.handled],
            [type(x) for x in self.want],
            "types of handled elements",
        )
        same(self.handled, self.want, "handled elements")
        same(self.own, self.want_own, "operations by handlers")
        same(
            self.daemon.get_state().name,
            self.state,
            "state of the daemon",
        )
        same(
            self.queue.unfinished_tasks,
            len(self.waiting) + self.held,
            "elements that aren't handled yet",
        )
        if self.kind == "command":
            done = self.want[:-1] if self.held else self.want
            want = [
                "Boom: " if x[1] == "raise" else str(x[0]) for x in done
            ]
            # the result is known before the element is done
            same(self.results, want, "results of commands")
        running = self.state != "IDLE"
        same(len(threads(NAME)), int(running), "threads of the daemon")

    def start(self) -> None:
        """Start the daemon."""
        good = self.state == "IDLE"
        if good:
            self.state = "RUNNING"
        same(self.daemon.start(), good, "result of starting")
        until(
            lambda: self.daemon.get_state() != DaemonState.STARTING,
            "running after a start",
        )
        if good:
            self.rec.count("starts")
        self.settle()

    def stop(self) -> None:
        """Stop the daemon, its handler may still be busy."""
        good = self.state == "RUNNING"
        if not good:
            same(sched.alone(self.daemon.stop, "stopping"), False, "stopping")
            return
        if self.held and self.size and len(self.waiting) >= self.size:
            return
        self.out = []
        out = self.out
        self.busy = threading.Thread(
            target=lambda: out.append(self.daemon.stop()), daemon=True
        )
        self.state = "STOPPING"
        before = len(self.waiting)
        self.waiting.append(None)
        self.busy.start()
        if self.held:
            until(
                lambda: self.daemon.get_state() == DaemonState.STOPPING
                and self.queue.qsize() > before,
                "a stop",
            )
            self.rec.label("stopped while busy")
        self.settle()

    def restart(self) -> None:
        """Restart."""
        if self.held:
            if self.state != "RUNNING":
                same(self.daemon.restart(), False, "restarting")
            return
        good = self.state == "RUNNING"
        got = sched.alone(self.daemon.restart, "restarting")
        same(got, good, "result of restarting")
        until(
            lambda: self.daemon.get_state() != DaemonState.STARTING,
            "running after a restart",
        )
        self.settle()

    def pause(self) -> None:
        """Pause."""
        same(self.daemon.pause(), self.operate("pause"), "result of pausing")
        self.settle()

    def unpause(self) -> None:
        """Unpause."""
        same(
            self.daemon.unpause(), self.operate("unpause"), "result of unpausing"
        )
        self.settle()

    def none(self) -> None:
        """Wake the daemon up for its end, as stopping does."""
        if self.held or self.state in ("IDLE", "STOPPING") or self.full():
            return
        self.waiting.append(None)
        self.queue.put(None)
        self.rec.label("injected")
        self.settle()

    def await_(self) -> None:
        """Wait until the queue is empty."""
        if self.state == "IDLE" and self.waiting:
            return
        thread = threading.Thread(
            target=lambda: self.daemon.await_empty(0.0005), daemon=True
        )
        pending = bool(self.waiting)
        thread.start()
        if not pending:
            thread.join(LIMIT)
            check(
                not thread.is_alive(), "waiting for an empty queue never ends"
            )
        elif self.state != "STOPPING":
            self.awaits.append((thread, True))
            self.rec.label("awaited")

    def release(self) -> None:
        """The handler is done."""
        if not self.held:
            return
        for thread, _ in self.awaits:
            time.sleep(0.001)
            check(
                thread.is_alive(),
                "waiting for an empty queue ends, it wasn't empty",
            )
        self.held = False
        number, act = self.want[-1]
        assert act == "hold"
        self.at_gate = False
        self.gate.release()
        self.settle()
        waits, self.awaits = self.awaits, []
        if not self.waiting:
            for thread, _ in waits:
                thread.join(LIMIT)
                check(
                    not thread.is_alive(),
                    "waiting for an empty queue never ends",
                )

    def finish(self) -> None:
        """Everything is handled in the end."""
        for _ in range(200):
            if self.held:
                self.release()
            elif self.state == "PAUSED":
                self.unpause()
            elif self.state == "IDLE":
                if not self.waiting:
                    return
                self.start()
            elif self.state == "RUNNING":
                self.stop()
        check(False, "the model doesn't end")


def threads(name: str) -> List[threading.Thread]:
    """Threads of a daemon."""
    return [x for x in threading.enumerate() if x.name == name]


def run_history(case: Any, rec: Rec) -> None:
    """Elements are handled as the model says."""
    world = World(case, rec)
    try:
        for step in case["steps"]:
            name = "await_" if step[0] == "await" else step[0]
            getattr(world, name)(*step[1:])
        world.finish()
    finally:
        clean(world)
    rec.count("elements", len(world.want))
    rec.nontrivial(len(world.want) > 4 and len(case["steps"]) > 5)


def clean(world: World) -> None:
    """Nothing stays behind, whatever happened."""
    world.acts.clear()
    for _ in range(100):
        world.gate.release()
    if threads(NAME):
        world.daemon.unpause()
        stopper = threading.Thread(target=world.daemon.stop, daemon=True)
        stopper.start()
        stopper.join(2.0)


# -- several producers ----------------------------------------------------------

crowds = st.fixed_dictionaries(
    {
        "size": st.sampled_from([0, 1, 2, 5]),
        "env": st.booleans(),
        "producers": st.lists(st.integers(1, 40), min_size=1, max_size=4),
        "fail": st.integers(2, 9),
        "control": st.lists(
            st.sampled_from(["stop", "start", "restart", "pause", "unpause", "go"]),
            min_size=2,
            max_size=14,
        ),
    }
)


def run_crowd(case: Any, rec: Rec) -> None:
    """Every producer's elements are handled in their order."""
    env: Any = None
    if case["env"]:
        env = TelemetryEnvironment(256, metrics_rate=1.0, app_id_basis=0.5)
    feed = create("feed", env, case["size"])
    handled: List[Any] = []
    inside: List[int] = []
    wrong: List[str] = []

    def handle(elem: Any) -> None:
        """An element."""
        inside.append(1)
        if len(inside) > 1:
            wrong.append("two elements are handled at once")
        handled.append(tuple(elem))
        inside.pop()
        if elem[1] % case["fail"] == 1:
            raise Boom()

    daemon = QueueDaemon(NAME, feed, handle, env)

    def produce(who: int, amount: int) -> None:
        """One producer."""
        for num in range(amount):
            feed.put((who, num))

    people = [
        threading.Thread(target=produce, args=(x, y), daemon=True)
        for x, y in enumerate(case["producers"])
    ]
    for one in people:
        one.start()
    total = sum(case["producers"])
    try:
        for oper in case["control"]:
            if oper == "go":
                seen = len(handled)
                if daemon.get_state() in (
                    DaemonState.RUNNING,
                    DaemonState.PAUSED,
                ):
                    until(
                        lambda: len(handled) > seen or len(handled) == total,
                        "handling of the next element",
                    )
                continue
            sched.alone(getattr(daemon, oper), oper)
            if oper == "stop" and daemon.get_state() == DaemonState.IDLE:
                count = len(handled)
                check(not threads(NAME), "a thread that was stopped still runs")
                time.sleep(0)
                same(len(handled), count, "handled after stopping")
            if oper in ("start", "restart"):
                until(
                    lambda: daemon.get_state() != DaemonState.STARTING,
                    "running after a start",
                )
        daemon.unpause()
        daemon.start()
        until(lambda: len(handled) >= total, "handling of all elements")
        for one in people:
            one.join(LIMIT)
        until(
            lambda: not feed.unfinished_tasks, "the end of handling"
        )
        check(daemon.stop(), "stopping is refused")
        check(not threads(NAME), "a thread that was stopped still runs")
        check(not wrong, "; ".join(wrong))
        for who, amount in enumerate(case["producers"]):
            same(
                [y for x, y in handled if x == who],
                list(range(amount)),
                f"handled elements of producer {who}",
            )
        same(len(handled), total, "handled elements")
        same(feed.unfinished_tasks, 0, "elements that aren't handled")
        rec.count("elements", total)
        rec.nontrivial(total > 10 and len(set(case["control"])) > 2)
    finally:
        daemon.unpause()
        if threads(NAME):
            stopper = threading.Thread(target=daemon.stop, daemon=True)
            stopper.start()
            stopper.join(5.0)


# -- two at a time --------------------------------------------------------------

OPS = ["stop", "start", "restart", "pause", "unpause", "put", "own-stop"]
races = st.fixed_dictionaries(
    {
        "first": st.sampled_from(OPS),
        "second": st.sampled_from(OPS),
        "begin": st.sampled_from(["idle", "running", "running", "paused"]),
        "pending": st.integers(0, 3),
        "env": st.booleans(),
        "size": st.sampled_from([0, 0, 2, 4]),
        "at": st.lists(st.floats(0, 0.999), min_size=3, max_size=6),
    }
)


class Pair:
    """A consumer two operations work on."""

    def __init__(self, case: Any) -> None:
        self.handled: List[Any] = []
        self.want: List[Any] = []
        env: Any = None
        if case["env"]:
            env = TelemetryEnvironment(256, metrics_rate=1.0, app_id_basis=0.5)
        self.feed = create("feed", env, case["size"])
        self.daemon = QueueDaemon(NAME, self.feed, self.handle, env)
        if case["begin"] != "idle":
            check(self.daemon.start(), "starting is refused")
            until(
                lambda: self.daemon.get_state() == DaemonState.RUNNING,
                "running after a start",
            )
            if case["begin"] == "paused":
                check(self.daemon.pause(), "pausing is refused")
        before = case["pending"]
        if case["begin"] == "idle" and case["size"]:
            # nobody makes space
            before = max(0, min(before, case["size"] - 4))
        for num in range(before):
            self.want.append(("before", ("before", num)))
            self.feed.put(("before", num), timeout=LIMIT)

    def handle(self, elem: Any) -> None:
        """An element."""
        self.handled.append(tuple(elem))
        if len(elem) > 2:
            self.daemon.stop()

    def operate(self, who: str, oper: str) -> Any:
        """One operation."""
        if oper not in ("put", "own-stop"):
            return getattr(self.daemon, oper)()
        for num in range(2):
            elem: Any = (who, num)
            if oper == "own-stop" and num:
                elem = (who, num, "stop")
            self.want.append((who, elem))
            self.feed.put(elem, timeout=LIMIT)
        return True

    def clean(self) -> None:
        """Nothing stays behind."""
        self.daemon.unpause()
        if threads(NAME):
            stopper = threading.Thread(target=self.daemon.stop, daemon=True)
            stopper.start()
            stopper.join(5.0)


def run_race(case: Any, rec: Rec) -> None:
    """Nothing is lost or handled twice when two operate at once."""
    first, second = case["first"], case["second"]
    if case["begin"] == "idle" and case["size"] in (1, 2, 3):
        return
    pair = Pair(case)
    try:
        total = sched.points(lambda: pair.operate("first", first))
    finally:
        pair.clean()
    for spot in sorted({int(x * total) for x in case["at"]}):
        pair = Pair(case)
        try:
            one, two, where, waited = sched.preempt(
                lambda: pair.operate("first", first),
                lambda: pair.operate("second", second),
                spot,
            )
            what = f"{second} while {first} is at {where}"
            for name, out in ((first, one), (second, two)):
                check(isinstance(out, bool), f"{what}: {name} gives {out}")
            rec.count("schedules")
            if waited:
                rec.count("second-waited")
            conclude(pair.daemon, pair.feed, pair.handled, pair.want, what)
        finally:
            pair.clean()
    rec.nontrivial(total > 1)


def conclude(
    daemon: Any, feed: Any, handled: List[Any], want: List[Any], what: str
) -> None:
    """Let the consumer finish, compare what it handled."""

    def quiet() -> bool:
        """Whether the daemon neither starts nor stops."""
        state = daemon.get_state()
        if state == DaemonState.IDLE:
            return not threads(NAME)
        if state == DaemonState.PAUSED:
            daemon.unpause()
        return state == DaemonState.RUNNING and not feed.unfinished_tasks

    for _ in range(8):
        until(quiet, f"{what}: a stable state")
        if daemon.get_state() == DaemonState.IDLE:
            if not feed.unfinished_tasks:
                break
            check(daemon.start(), f"{what}: starting is refused")
            until(
                lambda: daemon.get_state() != DaemonState.STARTING,
                f"{what}: running",
            )
    if daemon.get_state() == DaemonState.RUNNING:
        check(daemon.stop(), f"{what}: stopping is refused")
        until(quiet, f"{what}: the end of the thread")
    same(feed.unfinished_tasks, 0, f"{what}: elements that aren't handled")
    same(len(handled), len(want), f"{what}: amount of handled elements")
    for who in ("before", "first", "second"):
        mine = [tuple(y) for x, y in want if x == who]
        same(
            [x for x in handled if x[0] == who],
            mine,
            f"{what}: handled elements of {who}",
        )


PROP = Prop(
    "C32",
    [
        Facet(
            "histories",
            lambda: histories,
            run_history,
            quick=1500,
            rule="more than four elements were handled in more than five steps",
        ),
        Facet(
            "crowd",
            lambda: crowds,
            run_crowd,
            quick=600,
            rule="more than ten elements of real producer threads, three "
            "different operations",
        ),
        Facet(
            "race",
            lambda: races,
            run_race,
            quick=400,
            rule="a pair of operations, interrupted at some lines",
        ),
    ],
    more=3,
    assumptions=[
        "queue daemons go on while they're paused (elements that arrive are "
        "handled), as the rest of the library relies on",
        "None isn't an element, it ends the thread and elements after it wait "
        "for the next start",
        "a handler may call operations of its own daemon, but not wait for "
        "space in its own queue",
    ],
)
