"""C17: daemons follow their lifecycle, the task runs only while running."""

from __future__ import annotations

import os
import threading
import time
from typing import Any, Callable, Dict, List, Optional, Tuple

from hypothesis import strategies as st
from vtelem.channel.group_registry import ChannelGroupRegistry
from vtelem.daemon import DaemonBase, DaemonState
from vtelem.daemon.command_queue import CommandQueueDaemon
from vtelem.daemon.event_loop import EventLoopDaemon
from vtelem.daemon.http import HttpDaemon
from vtelem.daemon.queue import QueueDaemon
from vtelem.daemon.synchronous import Daemon
from vtelem.daemon.tcp_telemetry import TcpTelemetryDaemon
from vtelem.daemon.telemetry import TelemetryDaemon
from vtelem.daemon.websocket import WebsocketDaemon
from vtelem.daemon.websocket_telemetry import WebsocketTelemetryDaemon
from vtelem.classes.metered_queue import create
from vtelem.classes.time_keeper import TimeKeeper
from vtelem.enums.daemon import DaemonOperation
from vtelem.mtu import Host
from vtelem.stream.writer import default_writer
from vtelem.telemetry.environment import TelemetryEnvironment

from vt import gen, net, sched
from vt.core import Facet, HarnessError, Prop, Rec, check, same

LIMIT = 20.0
del ChannelGroupRegistry


class Task(Exception):
    """What a failing task raises."""


def quiet_threads() -> None:
    """Tasks that fail end their thread with a traceback nobody needs."""
    threading.excepthook = lambda _: None


def until(cond: Callable[[], Any], what: str, key: str = "stuck") -> None:
    """Wait for something that has to happen."""
    check(net.until(cond, LIMIT), f"{what} never happens", key)


# -- a daemon whose thread is parked at known points --------------------------


class Gate:
    """Parks the daemon's thread wherever it calls back."""

    def __init__(self) -> None:
        self.cond = threading.Condition()
        self.at: Optional[str] = None
        self.go = False
        self.open = False
        self.visits: List[Tuple[str, Any]] = []

    def arrive(self, kind: str, info: Any = None) -> None:
        """The daemon's thread waits here until it's released."""
        with self.cond:
            self.visits.append((kind, info))
            self.at = kind
            self.cond.notify_all()
            end = time.monotonic() + 3 * LIMIT
            while not self.go and not self.open:
                if not self.cond.wait(1.0) and time.monotonic() > end:
                    break
            self.go = False
            self.at = None
            self.cond.notify_all()

    def release(self) -> None:
        """Let the thread go on."""
        with self.cond:
            self.go = True
            self.cond.notify_all()
            end = time.monotonic() + LIMIT
            while self.go and time.monotonic() < end:
                self.cond.wait(0.5)

    def free(self, on: bool) -> None:
        """Whether the thread isn't stopped any more."""
        with self.cond:
            self.open = on
            self.cond.notify_all()


class Keeper:
    """Keeps the daemon's time: its sleep is a place to park."""

    def __init__(self, gate: Gate) -> None:
        self.gate = gate

    def add_slave(self, slave: Any) -> None:
        """Time starts at some value."""
        slave.set_time(100.0)

    def sleep(self, amount: float) -> None:
        """Nobody really sleeps."""
        self.gate.arrive("sleep", amount)

    @staticmethod
    def time_function() -> float:
        """The time isn't used."""
        return 0.0


ops = gen.weighted(
    (6, st.tuples(st.just("start"), st.integers(0, 3))),
    (12, st.tuples(st.just("step"), st.sampled_from([0] * 12 + [1, 2, 3, 3]))),
    (2, st.tuples(st.just("stop"), st.just(0))),
    (3, st.tuples(st.just("pause"), st.just(0))),
    (3, st.tuples(st.just("unpause"), st.just(0))),
    (2, st.tuples(st.just("restart"), st.integers(0, 3))),
    (1, st.tuples(st.just("hasty"), st.just(0))),
    (1, st.tuples(st.just("rate"), st.integers(0, 4))),
    (
        4,
        st.tuples(
            st.just("perform"),
            st.sampled_from(
                ["START", "STOP", "PAUSE", "UNPAUSE", "RESTART", "NONE"]
            ),
        ),
    ),
    (
        2,
        st.tuples(
            st.just("perform_str"),
            st.sampled_from(
                ["start", "Stop", "PAUSE", "unpause", "restart", "none", "x", ""]
            ),
        ),
    ),
    (1, st.tuples(st.just("context"), st.just(0))),
)
stepped = st.fixed_dictionaries(
    {
        "env": st.sampled_from([None, 1.0, 1.0, 0.0]),
        "init": st.booleans(),
        "callback": st.booleans(),
        "rate": st.sampled_from([0.5, 2.0]),
        "ops": st.lists(ops, min_size=10, max_size=40),
    }
)


class Bench:
    """A daemon, where its thread is and what the model says."""

    def __init__(self, case: Any) -> None:
        self.case = case
        self.env: Any = None
        if case["env"] is not None:
            self.env = TelemetryEnvironment(
                256,
                metrics_rate=case["env"] if case["env"] else None,
                app_id_basis=0.5,
            )
        self.gate = Gate()
        self.fail: Optional[str] = None
        self.elapse = 0.0
        self.wrong: List[str] = []
        self.changes: List[Tuple[DaemonState, DaemonState]] = []
        self.args: Any = None
        self.runs = 0
        self.daemon = Daemon(
            "bench",
            self.task,
            case["rate"],
            (lambda *_: None) if case["callback"] else None,
            self.changed if case["callback"] else None,
            self.env,
            Keeper(self.gate),
            self.init if case["init"] else None,
        )
        self.state = "IDLE"
        self.at: Optional[str] = None
        self.given: Any = None
        self.counts = dict.fromkeys(
            ["starts", "stops", "pauses", "unpauses", "errors", "count"], 0
        )
        self.tasks = 0

    # callbacks

    def changed(self, prev: Any, state: Any, _: float) -> None:
        """The daemon changes its state."""
        self.changes.append((prev, state))

    def init(self, *args: Any, **kwargs: Any) -> None:
        """Called once per start."""
        self.called("init", args, kwargs)

    def task(self, *args: Any, **kwargs: Any) -> None:
        """The task."""
        self.called("task", args, kwargs)

    def called(self, kind: str, args: Any, kwargs: Any) -> None:
        """Note what is going on, fail if told to."""
        state = self.daemon.get_state()
        if state != DaemonState.RUNNING:
            self.wrong.append(f"the {kind} is called while {state.name}")
        if threading.current_thread() is not self.daemon.thread:
            self.wrong.append(f"the {kind} is called in another thread")
        self.gate.arrive(kind, (args, kwargs))
        fail, self.fail = self.fail, None
        self.daemon.advance_time(self.elapse)
        self.elapse = 0.0
        if fail == "error":
            raise Task("failed")
        if fail == "interrupt":
            raise KeyboardInterrupt()

    # the thread

    def settle(self) -> str:
        """Wait until the thread is parked somewhere or has ended."""
        gate = self.gate

        def there() -> bool:
            if gate.at is not None and not gate.go:
                return True
            return self.ended()

        until(there, "the thread's next action")
        self.verify()
        if gate.at is None:
            return "end"
        return gate.at

    def ended(self) -> bool:
        """Whether the daemon's thread has ended."""
        thread = self.daemon.thread
        return thread is None or (
            not thread.is_alive() and thread.ident is not None
        )

    def verify(self) -> None:
        """Nothing was called when it shouldn't have."""
        check(not self.wrong, "; ".join(self.wrong), "task")

    def arrived(self, want: str) -> None:
        """The thread has to be at some place now."""
        got = self.settle()
        same(got, want, "the thread's next action")
        if want == "end":
            self.state = "IDLE"
            self.at = None
            self.counts["count"] += 1
            return
        self.at = want
        if want in ("task", "init"):
            args = self.gate.visits[-1][1]
            same(args, self.given, f"arguments of the {want}")
            self.tasks += want == "task"

    def loop(self) -> str:
        """What the thread does next."""
        if self.state == "STOPPING":
            return "end"
        return "sleep" if self.state == "PAUSED" else "task"

    def step(self, how: int) -> None:
        """Let the thread go to its next action."""
        if self.at is None:
            return
        late = False
        if self.at in ("task", "init"):
            self.fail = {1: "error", 2: "interrupt"}.get(how)
            if how == 3:
                self.elapse, late = 50.0, self.at == "task"
        at, fails = self.at, self.fail is not None
        self.gate.release()
        if fails:
            want = "end"
        elif at == "task" and not late:
            want = "sleep"
        else:
            want = self.loop()
        self.arrived(want)

    # operations

    def started(self, num: int) -> None:
        """The model of starting."""
        self.given = (tuple(range(num)), {"num": num} if num else {})
        self.counts["starts"] += 1
        self.counts["count"] = 0
        self.state = "RUNNING"

    def start(self, num: int, call: Callable[..., Any] = None) -> bool:
        """Start the daemon."""
        call = call or self.daemon.start
        kwargs = {"num": num} if num else {}
        good = self.state == "IDLE"
        before = len(self.gate.visits)
        if good:
            self.started(num)
        same(call(*range(num), **kwargs), good, "result of starting")
        if good:
            until(
                lambda: len(self.gate.visits) > before or self.ended(),
                "running after a start",
            )
            self.arrived("init" if self.case["init"] else "task")
        return good

    def stop(self, call: Callable[[], Any], again: Optional[int] = None) -> None:
        """Stop (and possibly start again)."""
        good = self.state == "RUNNING"
        out: List[Any] = []
        thread = threading.Thread(
            target=lambda: out.append(call()), daemon=True
        )
        before = len(self.gate.visits)
        thread.start()
        if not good:
            until(lambda: not thread.is_alive(), "the end of a refused stop")
            same(out, [False], "result of stopping")
            return
        until(
            lambda: self.daemon.get_state() == DaemonState.STOPPING or out,
            "a stop",
        )
        check(not out, "stopping ends while the task still runs", "stop")
        self.state = "STOPPING"
        # the thread finishes what it's at, nothing else
        tasks = [x for x in self.gate.visits if x[0] != "sleep"]
        ends = time.monotonic() + LIMIT
        old = self.daemon.thread
        starts = self.counts["starts"]
        while time.monotonic() < ends:
            if self.gate.at == "sleep" or len(self.gate.visits) == before:
                if self.gate.at is not None:
                    self.gate.release()
                    before = -1
            if old is None or not old.is_alive():
                break
            if self.gate.at in ("task", "init") and before == -1:
                if self.daemon.get_state() == DaemonState.STOPPING:
                    check(False, "the task runs after stopping", "task")
                break
            time.sleep(0.0001)
        self.counts["stops"] += 1
        if again is not None:
            self.started(again)
        until(lambda: not thread.is_alive(), "the end of a stop")
        same(out, [True], "result of stopping")
        if again is None:
            until(lambda: self.ended(), "the end of the thread")
            check(
                old is None or not old.is_alive(), "the thread still runs"
            )
            self.verify()
            same(
                [x for x in self.gate.visits if x[0] != "sleep"],
                tasks,
                "calls while stopping",
            )
            self.state = "IDLE"
            self.at = None
            self.counts["count"] = 1
        else:
            same(self.counts["starts"], starts + 1, "starts")
            until(
                lambda: self.gate.at in ("task", "init") or self.ended(),
                "running after a restart",
            )
            self.arrived("init" if self.case["init"] else "task")

    def hasty(self) -> None:
        """Don't wait for the task when stopping."""
        if self.state != "RUNNING" or self.at is None:
            return
        thread = self.daemon.thread
        alone(lambda: self.daemon.stop(timeout=0.01), "a stop with a timeout")
        self.state = "STOPPING"
        self.counts["errors"] += 1
        self.compare("after an impatient stop")
        same(self.daemon.start(), False, "starting while stopping")
        while self.at is not None:
            at = self.at
            self.gate.release()
            if at == "task":
                until(
                    lambda: self.gate.at == "sleep" or not thread.is_alive(),
                    "the end of the task",
                )
                if thread.is_alive():
                    self.at = "sleep"
                    continue
            until(
                lambda: not thread.is_alive() or self.gate.at is not None,
                "the end of the thread",
            )
            check(self.gate.at is None, "the task runs again", "task")
            self.at = None
        self.counts["count"] += 1
        self.state = "IDLE"

    def simple(self, kind: str, call: Callable[[], Any]) -> None:
        """Pause or unpause."""
        need = "RUNNING" if kind == "pause" else "PAUSED"
        good = self.state == need
        same(alone(call, kind), good, f"result of {kind}")
        if good:
            self.state = "PAUSED" if kind == "pause" else "RUNNING"
            self.counts[kind + "s"] += 1

    def compare(self, what: str) -> None:
        """States and counters."""
        self.verify()
        daemon = self.daemon
        same(daemon.get_state().name, self.state, f"state {what}")
        same(daemon.get_state_str(), self.state.lower(), f"state {what}")
        if self.env is not None and self.env.metrics is not None:
            for name, count in self.counts.items():
                same(
                    self.env.get_metric(f"bench.{name}"),
                    count,
                    f"metric {name} {what}",
                )
            same(
                self.env.get_enum_value(
                    self.env.channel_registry.get_id("bench.state")
                ),
                self.state.lower(),
                f"metric state {what}",
            )
        if self.case["callback"]:
            last = DaemonState.ERROR
            changes = list(self.changes)
            # the callback isn't there before the daemon is complete
            last = DaemonState.IDLE
            for prev, state in changes:
                same(prev, last, f"previous state reported {what}")
                check(prev != state, "a change without a change")
                last = state
            same(last.name, self.state, f"last state reported {what}")


def alone(func: Callable[[], Any], what: str) -> Any:
    """Call in a thread of its own: it must not block."""
    return sched.alone(func, what)


SKIP = {
    "START": ["STARTING", "RUNNING"],
    "STOP": ["STOPPING", "IDLE"],
    "PAUSE": ["PAUSED"],
    "UNPAUSE": ["IDLE", "RUNNING"],
    "RESTART": [],
}


def perform(bench: Bench, name: str, call: Callable[..., Any]) -> None:
    """An operation by its name: nothing to do is a success."""
    daemon = bench.daemon
    if name not in SKIP:
        same(alone(call, name), False, f"result of operation {name!r}")
        return
    if bench.state in SKIP[name]:
        same(alone(call, name), True, f"result of {name} in {bench.state}")
        return
    if name == "START":
        bench.start(2, call)
    elif name == "STOP":
        bench.stop(call)
    elif name == "RESTART":
        bench.stop(lambda: call(0, num=1) and True, None) if (
            bench.state != "RUNNING"
        ) else restarting(bench, 2, call)
    else:
        bench.simple(name.lower(), call)
    del daemon


def restarting(bench: Bench, num: int, call: Callable[..., Any]) -> None:
    """Stop and start again."""
    kwargs = {"num": num} if num else {}
    bench.stop(lambda: call(*range(num), **kwargs), num)


def run_stepped(case: Any, rec: Rec) -> None:
    """A history of operations and steps of the thread."""
    quiet_threads()
    bench = Bench(case)
    daemon = bench.daemon
    seen = set()
    try:
        bench.compare("at first")
        for num, (kind, arg) in enumerate(case["ops"]):
            seen.add((kind, bench.state, bench.at))
            if kind == "start":
                bench.start(arg)
            elif kind == "step":
                bench.step(arg)
            elif kind == "stop":
                bench.stop(daemon.stop)
            elif kind == "restart":
                if bench.state == "RUNNING":
                    restarting(bench, arg, daemon.restart)
                else:
                    bench.stop(daemon.restart)
            elif kind in ("pause", "unpause"):
                bench.simple(kind, getattr(daemon, kind))
            elif kind == "hasty":
                bench.hasty()
            elif kind == "rate":
                alone(lambda: daemon.set_rate(float(arg)), "a change of rate")
            elif kind == "perform":
                perform(
                    bench,
                    arg,
                    lambda *a, **k: daemon.perform(DaemonOperation[arg], *a, **k),
                )
            elif kind == "perform_str":
                perform(
                    bench,
                    arg.upper(),
                    lambda *a, **k: daemon.perform_str(arg, *a, **k),
                )
            elif bench.state == "RUNNING":
                with daemon.paused():
                    bench.state = "PAUSED"
                    bench.counts["pauses"] += 1
                    bench.compare("in a pause")
                    bench.step(0)
                bench.state = "RUNNING" if bench.at is not None else "IDLE"
                bench.counts["unpauses"] += 1
            bench.compare(f"after {kind} {arg} ({num})")
    finally:
        bench.gate.free(True)
        if bench.daemon.get_state() == DaemonState.PAUSED:
            bench.daemon.unpause()
        bench.wrong.clear()
        bench.fail = None
        bench.daemon.function["rate"] = 0.001
        end = time.monotonic() + 5
        while not bench.ended() and time.monotonic() < end:
            if bench.daemon.get_state() == DaemonState.RUNNING:
                bench.daemon.stop()
            time.sleep(0.001)
    rec.count("operations", len(case["ops"]))
    rec.count("tasks", bench.tasks)
    rec.nontrivial(bench.tasks >= 2 and len(seen) >= 5)


# -- every kind of daemon -----------------------------------------------------

KINDS = [
    "daemon",
    "telemetry",
    "keeper",
    "queue",
    "writer",
    "command",
    "eloop",
    "http",
    "https",
    "tcp",
    "websocket",
    "ws-telemetry",
]
QUICK = ["daemon", "telemetry", "keeper", "queue", "writer", "command", "eloop"]
kinds = st.fixed_dictionaries(
    {
        "kind": st.one_of(st.sampled_from(QUICK), st.sampled_from(KINDS)),
        "env": st.sampled_from([None, 1.0, 0.0]),
        "ops": st.lists(
            st.sampled_from(
                [
                    "start",
                    "start",
                    "stop",
                    "stop",
                    "pause",
                    "unpause",
                    "restart",
                    "pause",
                    "unpause",
                    "booted",
                    "serve",
                ]
            ),
            min_size=2,
            max_size=9,
        ),
    }
)


def build(kind: str, env: Any, stack: Any) -> Any:
    """A daemon of some kind."""
    local = Host("127.0.0.1", 0)
    if kind == "daemon":
        return Daemon("d", lambda *_, **__: None, 0.002, env=env)
    if kind == "telemetry":
        keeper = TimeKeeper("time", 0.01)
        rate = env.metrics_rate if env is not None else None
        return TelemetryDaemon("d", 1400, 0.002, keeper, rate)
    if kind == "keeper":
        return TimeKeeper("d", 0.002)
    if kind == "queue":
        return QueueDaemon("d", create("q", env), lambda _: None, env)
    if kind == "writer":
        return default_writer("d", env=env)[0]
    if kind == "command":
        return CommandQueueDaemon("d", env)
    if kind == "eloop":
        return EventLoopDaemon("d", env)
    if kind == "http":
        result = HttpDaemon("d", local, env=env)
        stack.callback(result.server.server_close)
        return result
    if kind == "https":
        result = HttpDaemon("d", local, env=env)
        stack.callback(result.server.server_close)
        home = os.path.dirname(os.path.abspath(__file__))
        data = os.path.join(os.path.dirname(os.path.dirname(home)), "data")
        result.use_tls(
            os.path.join(data, "tls.key"), os.path.join(data, "tls.cert")
        )
        return result
    if kind == "tcp":
        writer = default_writer("w", env=env)[0]
        result = TcpTelemetryDaemon("d", writer, env, local)
        stack.callback(result.server.server_close)
        return result
    if kind == "websocket":

        async def consumer(*_: Any) -> None:
            """Nobody connects."""

        return WebsocketDaemon("d", consumer, local, env)
    if kind == "ws-telemetry":
        writer = default_writer("w", env=env)[0]
        return WebsocketTelemetryDaemon("d", writer, local, env)
    raise HarnessError(kind)


def run_kinds(case: Any, rec: Rec) -> None:
    """Operations on a real daemon of any kind."""
    quiet_threads()
    env: Any = None
    if case["env"] is not None:
        env = TelemetryEnvironment(
            256,
            metrics_rate=case["env"] if case["env"] else None,
            app_id_basis=0.5,
        )
        env.metrics_rate = case["env"] if case["env"] else None
    state = "IDLE"
    with net.scope() as stack:
        daemon = build(case["kind"], env, stack)
        if case["kind"] in ("websocket", "ws-telemetry", "eloop"):
            stack.callback(lambda: close_loop(daemon))
        threads: List[Any] = []

        def running() -> None:
            """Wait for the thread to get going."""
            until(
                lambda: daemon.get_state() != DaemonState.STARTING, "a start"
            )
            if daemon.thread is not None:
                threads.append(daemon.thread)

        for num, oper in enumerate(case["ops"]):
            what = f"{oper} of {case['kind']} when {state} ({num})"
            if oper == "start":
                same(alone(daemon.start, what), state == "IDLE", what)
                state = "RUNNING" if state == "IDLE" else state
                running()
            elif oper == "stop":
                same(alone(daemon.stop, what), state == "RUNNING", what)
                state = "IDLE" if state == "RUNNING" else state
            elif oper == "restart":
                same(alone(daemon.restart, what), state == "RUNNING", what)
                if state == "RUNNING":
                    running()
            elif oper == "pause":
                same(alone(daemon.pause, what), state == "RUNNING", what)
                state = "PAUSED" if state == "RUNNING" else state
            elif oper == "unpause":
                same(alone(daemon.unpause, what), state == "PAUSED", what)
                state = "RUNNING" if state == "PAUSED" else state
            elif state == "IDLE" and oper == "booted":

                def booted() -> None:
                    """Run for a moment."""
                    with daemon.booted():
                        running()
                        same(daemon.get_state().name, "RUNNING", "state")

                same(alone(booted, what), None, what)
            elif state == "IDLE" and oper == "serve" and case["kind"] not in ("http", "https"):

                def main(*_: Any, **__: Any) -> int:
                    """The main thread's function."""
                    running()
                    return 42

                same(
                    alone(lambda: daemon.serve(main_thread=main), what), 42, what
                )
            same(daemon.get_state().name, state, f"state after {what}")
            if state == "IDLE":
                for thread in threads:
                    check(
                        not thread.is_alive(),
                        f"a thread still runs after {what}",
                        "thread",
                    )
            same(
                daemon.thread is not None and daemon.thread.is_alive(),
                state != "IDLE",
                f"whether the thread runs after {what}",
            )
        if state == "PAUSED":
            same(alone(daemon.unpause, "unpause"), True, "the last unpause")
        if state != "IDLE":
            same(alone(daemon.stop, "stop"), True, "the last stop")
        if case["kind"] in ("http", "https"):
            same(daemon.close(), True, "closing")
            same(daemon.close(), False, "closing again")
    rec.label(case["kind"])
    rec.nontrivial(len(threads) > 0 and len(case["ops"]) > 3)


def close_loop(daemon: Any) -> None:
    """Free the sockets of an event loop."""
    loop = daemon.eloop
    if loop.is_running() or loop.is_closed():
        return
    server = getattr(daemon, "server", None)
    if server is not None:
        server.close()
        loop.run_until_complete(server.wait_closed())
    loop.close()


# -- two threads operate a daemon ---------------------------------------------

RACING = ["start", "stop", "pause", "unpause", "restart", "hup"]
races = st.fixed_dictionaries(
    {
        "from": st.sampled_from(["IDLE", "RUNNING", "RUNNING", "PAUSED"]),
        "one": st.sampled_from(RACING + ["thread"] * 4),
        "two": st.sampled_from(RACING),
        "env": st.sampled_from([False, True, True]),
        "fine": st.sampled_from([False, False, True]),
        "picks": st.lists(
            st.floats(0, 1, exclude_max=True), min_size=14, max_size=14
        ),
    }
)


class Waiting(DaemonBase):
    """A daemon that runs until it's stopped."""

    number = 0

    def __init__(self, env: Any) -> None:
        self.ends = False
        Waiting.number += 1
        super().__init__("race", env)
        self.label = f"race {Waiting.number}"
        self.tracer: Any = None

    def run_harness(self, *args: Any, **kwargs: Any) -> None:
        """Trace the daemon's own thread, if asked to."""
        threading.current_thread().name = self.label
        tracer, self.tracer = self.tracer, None
        if tracer is None:
            super().run_harness(*args, **kwargs)
            self.ends = False
            return
        tracer.func = lambda: super(Waiting, self).run_harness(*args, **kwargs)
        tracer.run()
        self.ends = False

    def run(self, *_: Any, **__: Any) -> None:
        """Wait for the end."""
        while self.state != DaemonState.STOPPING and not self.ends:
            time.sleep(0.0003)


class Contest:
    """A daemon in some state."""

    def __init__(self, case: Any) -> None:
        self.case = case
        self.env: Any = None
        if case["env"]:
            self.env = TelemetryEnvironment(
                256, metrics_rate=1.0, app_id_basis=0.5
            )
        self.daemon = Waiting(self.env)
        self.results: List[Tuple[str, Any]] = []
        self.begin = case["from"]
        if case["one"] == "thread":
            self.begin = "IDLE"
        if self.begin != "IDLE":
            check(self.daemon.start(), "no start")
            until(
                lambda: self.daemon.get_state() == DaemonState.RUNNING, "a start"
            )
        if self.begin == "PAUSED":
            check(self.daemon.pause(), "no pause")

    def operate(self, oper: str) -> None:
        """One operation."""
        daemon = self.daemon
        if oper == "hup":
            # the work ends by itself
            daemon.ends = daemon.get_state() != DaemonState.IDLE
            return
        self.results.append((oper, getattr(daemon, oper)()))

    def judge(self, where: str) -> None:
        """What has to be true whatever the schedule."""
        daemon = self.daemon

        def fine(cond: Any, text: str) -> None:
            """Complain about a schedule."""
            check(
                cond,
                f"{self.case['one']} and {self.case['two']} when {self.begin}, "
                f"interrupted at {where}: {text}",
                "race",
            )

        def living() -> int:
            """How many threads this daemon has."""
            return len(
                [x for x in threading.enumerate() if x.name == daemon.label]
            )

        def calm() -> bool:
            """Nothing is going on any more."""
            state = daemon.get_state()
            alive = living()
            if state in (DaemonState.RUNNING, DaemonState.PAUSED):
                return alive == 1 and not daemon.ends
            return state == DaemonState.IDLE and not alive

        calm_now = net.until(calm, LIMIT)
        state = daemon.get_state()
        fine(
            calm_now,
            f"state {state.name} and {living()} threads",
        )
        begun = {"IDLE": 0}.get(self.begin, 1)
        counts = dict.fromkeys(["start", "stop", "pause", "unpause"], 0)
        counts["start"] += begun
        counts["pause"] += self.begin == "PAUSED"
        for oper, good in self.results:
            fine(good in (True, False), f"{oper} returned {good}")
            if not good and oper != "restart":
                continue
            if oper == "restart":
                if good:
                    counts["start"] += 1
                    counts["stop"] += 1
                continue
            counts[oper] += 1
        fine(
            0 <= counts["pause"] - counts["unpause"] <= 1 + counts["start"],
            f"pauses and unpauses {self.results}",
        )
        if self.env is not None:
            shown = self.env.get_enum_value(
                self.env.channel_registry.get_id("race.state")
            )
            fine(
                shown == state.name.lower(),
                f"the state metric is {shown} in {state.name}",
            )
            exact = "restart" not in (self.case["one"], self.case["two"])
            if exact:
                for name in ("starts", "pauses", "unpauses"):
                    got = self.env.get_metric(f"race.{name}")
                    fine(
                        got == counts[name[:-1]],
                        f"{name} is {got} for {self.results}",
                    )
                got = self.env.get_metric("race.stops")
                fine(
                    got == counts["stop"], f"stops is {got} for {self.results}"
                )
        # the daemon goes on working
        daemon.ends = False
        if state == DaemonState.PAUSED:
            fine(daemon.unpause() is True, "can't be unpaused afterwards")
        if state == DaemonState.IDLE:
            fine(daemon.start() is True, "can't be started afterwards")
            fine(
                net.until(
                    lambda: daemon.get_state() == DaemonState.RUNNING, LIMIT
                ),
                "doesn't run afterwards",
            )
        result = sched.Runner(daemon.stop)
        result.start()
        fine(result.done.wait(LIMIT), "stopping afterwards never ends")
        fine(result.result is True, f"stopping afterwards: {result.result}")
        fine(
            daemon.get_state() == DaemonState.IDLE,
            f"state {daemon.get_state().name} after stopping",
        )


def run_race(case: Any, rec: Rec) -> None:
    """Two operations at once."""
    quiet_threads()
    if case["one"] == "thread":
        amount = of_thread(case, rec)
    else:
        contest = Contest(case)
        total = sched.points(
            lambda: contest.operate(case["one"]), case["fine"]
        )
        contest.judge("nowhere")
        spots = choose(case, total)
        amount = len(spots)
        for spot in spots:
            contest = Contest(case)
            one, two, where, _ = sched.preempt(
                lambda: contest.operate(case["one"]),
                lambda: contest.operate(case["two"]),
                spot,
                case["fine"],
            )
            for result in (one, two):
                check(
                    result is None,
                    f"{case['one']} and {case['two']} when {contest.begin}, "
                    f"interrupted at {where}: {result}",
                    "race",
                )
            contest.judge(where)
            rec.count("schedules")
    rec.label(f"{case['one']}-{case['two']}")
    rec.nontrivial(amount > 5)


def choose(case: Any, total: int) -> List[int]:
    """Where to interrupt."""
    if total <= 40:
        return list(range(total))
    return sorted({int(x * total) for x in case["picks"]})


def of_thread(case: Any, rec: Rec) -> int:
    """An operation interrupts the daemon's own thread."""
    contest = Contest(case)
    count = sched.Runner(lambda: None, count=True, fine=case["fine"])
    contest.daemon.tracer = count
    contest.operate("start")
    until(lambda: contest.daemon.get_state() == DaemonState.RUNNING, "a start")
    contest.operate("stop")
    if not count.done.wait(LIMIT):
        return 0
    spots = choose(case, count.seen)
    for spot in spots:
        contest = Contest(case)
        other = sched.Runner(lambda: contest.operate(case["two"]))

        def pause() -> None:
            """Let the other one run."""
            other.start()
            other.waiting()

        main = sched.Runner(lambda: None, spot, pause, fine=case["fine"])
        contest.daemon.tracer = main
        contest.operate("start")
        # end the run, so that every point is reached
        until(
            lambda: contest.daemon.get_state() != DaemonState.STARTING
            or main.seen > spot,
            "a start",
        )
        if main.seen <= spot:
            contest.operate("stop")
        if main.seen > spot:
            net.until(lambda: main.done.is_set() or other.done.is_set(), LIMIT)
        if other.ident is not None:
            sched.settle(other, f"{case['two']} at {main.where}")
            check(
                other.result is None,
                f"{case['two']} at {main.where} of the thread: {other.result}",
                "race",
            )
        contest.judge(f"{main.where} of its thread")
        rec.count("schedules")
    return len(spots)


# -- tasks that operate their own daemon ---------------------------------------

OWN = ["stop", "restart", "pause", "unpause", "start"]
owns = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(["task", "queue", "command"]),
        "how": st.sampled_from(["method", "enum", "str"]),
        "env": st.booleans(),
        "runs": st.lists(
            st.tuples(
                st.integers(0, 3), st.sampled_from(OWN), st.booleans()
            ),
            min_size=1,
            max_size=4,
        ),
    }
)


def run_own(case: Any, rec: Rec) -> None:
    """A task operates its own daemon, it's never left in between."""
    quiet_threads()
    env = TelemetryEnvironment(256, metrics_rate=1.0) if case["env"] else None
    plan: List[Any] = []
    count = [0]
    late: List[str] = []
    results: List[Any] = []

    def operate(oper: str) -> Any:
        """Operate the daemon."""
        if case["how"] == "enum":
            return daemon.perform(DaemonOperation[oper.upper()])
        if case["how"] == "str":
            return daemon.perform_str(oper)
        return getattr(daemon, oper)()

    def work(*_: Any) -> Any:
        """The task."""
        if daemon.get_state() in (DaemonState.IDLE, DaemonState.STARTING):
            late.append(daemon.get_state().name)
        count[0] += 1
        if plan and count[0] > plan[0][0]:
            oper = plan.pop(0)[1]
            try:
                results.append(operate(oper))
            except BaseException as exc:  # pylint: disable=broad-except
                results.append(f"raises {exc!r}")
        return True, ""

    feed: Any = None
    daemon: Any
    if case["kind"] == "task":
        daemon = Daemon("own", work, 0.0005, lambda *_: None, env=env)
    elif case["kind"] == "queue":
        feed = create("own.queue", env)
        daemon = QueueDaemon("own", feed, work, env)
    else:
        daemon = CommandQueueDaemon("own", env)
        daemon.register_consumer("x", work)
        feed = daemon.queue

    def fed() -> None:
        """More to do."""
        if feed is not None and feed.qsize() < 2:
            feed.put(({"command": "x"}, None))

    def more() -> bool:
        """Whether it has run again since."""
        fed()
        return count[0] > seen

    def operated() -> bool:
        """Whether the task has operated its daemon."""
        fed()
        return len(results) > num

    try:
        for num, (when, oper, settle) in enumerate(case["runs"]):
            count[0] = 0
            what = f"{oper} by its own task"
            if daemon.get_state() == DaemonState.IDLE:
                check(daemon.start(), f"starting before {what} is refused")
            plan.append((when, oper))
            until(operated, what, "own")
            result = results[-1]
            check(isinstance(result, bool), f"{what} {result}", "own")
            if case["how"] == "method":
                if oper in ("stop", "pause"):
                    check(result, f"{what} is refused", "own")
                if oper in ("unpause", "start"):
                    check(not result, f"{what} succeeds", "own")
            if oper == "stop":
                until(
                    lambda: daemon.get_state() == DaemonState.IDLE,
                    "the end of a daemon stopped by its own task",
                    "own",
                )
                seen = count[0]
                if settle:
                    time.sleep(0.002)
                    same(count[0], seen, f"runs after {what}")
                if feed is not None:
                    while not feed.empty():
                        feed.get()
                continue
            if oper == "pause":
                same(
                    daemon.get_state(), DaemonState.PAUSED, f"state after {what}"
                )
                check(daemon.unpause(), "unpausing is refused")
            seen = count[0]
            until(more, f"running after {what}", "own")
        check(not late, f"the task runs while {late}", "own")
        rec.nontrivial(len({x[1] for x in case["runs"]}) > 1)
    finally:
        daemon.unpause()
        daemon.stop()


PROP = Prop(
    "C17",
    [
        Facet(
            "stepped",
            lambda: stepped,
            run_stepped,
            3000,
            rule="histories of operations on a daemon whose thread is parked "
            "at known points; non-trivial = two task executions, five "
            "different situations",
        ),
        Facet(
            "kinds",
            lambda: kinds,
            run_kinds,
            1200,
            thorough=3000,
            rule="operations on real daemons of all kinds; non-trivial = it "
            "ran, more than three operations",
        ),
        Facet(
            "race",
            lambda: races,
            run_race,
            300,
            thorough=3000,
            rule="two operations at once, or one and the daemon's own thread, "
            "interrupted at lines or bytecodes; non-trivial = more than five "
            "points",
        ),
        Facet(
            "own",
            lambda: owns,
            run_own,
            900,
            thorough=9000,
            rule="tasks, queue handlers and command handlers operate the "
            "daemon that runs them; non-trivial = several operations",
        ),
    ],
    assumptions=[
        "an iteration that began before a pause ends during it",
        "stopping a daemon that's paused or starting is refused by design",
        "callbacks for state changes don't raise",
    ],
)
