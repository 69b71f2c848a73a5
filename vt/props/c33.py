"""C33: periodic tasks keep their period, whatever they do and how time goes."""

from __future__ import annotations

import threading
import time
from typing import Any, Dict, Iterator, List, Optional, Tuple

from hypothesis import strategies as st
from vtelem.classes.time_keeper import TimeKeeper
from vtelem.daemon import DaemonState
from vtelem.daemon.synchronous import Daemon
from vtelem.daemon.telemetry import TelemetryDaemon
from vtelem.enums.primitive import Primitive
from vtelem.telemetry.environment import TelemetryEnvironment

from vt import envs, gen
from vt.core import Facet, Prop, Rec, check, same

LIMIT = 20.0


class Sim:
    """
    Virtual time: threads that sleep are parked, one of them goes on at a time.
    """

    def __init__(self, now: float) -> None:
        self.now = now
        self.cond = threading.Condition()
        self.parked: Dict[Any, Tuple[float, int, float]] = {}
        self.serial = 0
        self.over = False

    def time(self) -> float:
        """What time it is."""
        return self.now

    def sleep(self, amount: float) -> None:
        """A thread sleeps."""
        if amount < 0:
            raise ValueError("sleep length must be non-negative")
        me = threading.current_thread()
        with self.cond:
            if self.over:
                raise SystemExit
            self.serial += 1
            self.parked[me] = (self.now + amount, self.serial, amount)
            self.cond.notify_all()
            while me in self.parked:
                if not self.cond.wait(3 * LIMIT):
                    raise SystemExit
            if self.over:
                raise SystemExit

    def settle(self, thread: Any) -> Optional[float]:
        """Wait until a thread sleeps (how long) or has ended."""
        end = time.monotonic() + LIMIT
        with self.cond:
            while thread not in self.parked and thread.is_alive():
                self.cond.wait(0.001)
                check(
                    time.monotonic() < end,
                    "a thread neither sleeps nor ends",
                    "stuck",
                )
            return self.parked[thread][2] if thread in self.parked else None

    def first(self) -> Any:
        """Who wakes up first."""
        with self.cond:
            return min(self.parked, key=lambda x: self.parked[x][:2])

    def wake(self, thread: Any) -> Optional[float]:
        """Time passes until a thread wakes up."""
        with self.cond:
            self.now = max(self.now, self.parked.pop(thread)[0])
            self.cond.notify_all()
        return self.settle(thread)

    def finish(self) -> None:
        """Nobody sleeps any more."""
        with self.cond:
            self.over = True
            self.parked.clear()
            self.cond.notify_all()


class Actor:
    """A daemon, and what is expected of it."""

    def __init__(self, world: "World", name: str, rate: float) -> None:
        self.world = world
        self.name = name
        self.rate = rate
        self.state = "idle"
        self.plan: Any = None
        self.daemon: Any = None
        self.thread: Any = None
        self.stopper: Any = None
        self.stopped: List[Any] = []
        self.got: List[Any] = []
        self.want: List[Any] = []
        self.overruns = 0
        self.uptime = 0.0
        self.cycle = 0.0
        self.runs = 0
        self.reports = False

    def body(self) -> Iterator[float]:
        """One execution of the task: how long it sleeps."""
        raise NotImplementedError

    def clock(self) -> float:
        """The time by which iterations are measured."""
        return self.world.app

    def pace(self, amount: float) -> float:
        """What an amount of the daemon's time is in real time."""
        return amount / self.world.scale

    def expect(self) -> Iterator[float]:
        """How long the daemon's thread sleeps, one after another."""
        while self.state != "stopping":
            rate = self.rate
            if self.state == "paused":
                yield self.pace(rate)
                continue
            start = self.clock()
            yield from self.body()
            self.runs += 1
            end = self.clock()
            self.cycle = end - start
            self.uptime += end - start
            left = rate - (end - start)
            if left > 0:
                yield self.pace(left)
            else:
                self.overruns += 1
                if self.reports:
                    self.want.append(("overrun", start, end, rate))

    # operations

    def follow(self, slept: Optional[float], what: str) -> None:
        """The thread sleeps or has ended, compare it with the plan."""
        want = next(self.plan, None)
        same(slept, want, f"{what}: {self.name} sleeps")
        same(self.got, self.want, f"{what}: {self.name}'s task")
        self.got.clear()
        self.want.clear()
        if want is None:
            self.stopper.join(LIMIT)
            check(not self.stopper.is_alive(), f"{what}: stopping hangs")
            same(self.stopped.pop(), True, f"{what}: stopping succeeds")
            same(self.daemon.get_state(), DaemonState.IDLE, f"{what}: state")
            self.state = "idle"
            self.thread = None

    def start(self, what: str) -> None:
        """Start it, the first iteration begins at once."""
        same(self.daemon.start(), self.state == "idle", f"{what}: starting")
        if self.state == "idle":
            self.state = "running"
            self.thread = self.daemon.thread
            self.plan = self.expect()
            self.follow(self.world.sim.settle(self.thread), what)

    def stop(self, what: str) -> None:
        """It stops once it's done with what it does."""
        if self.state != "running":
            return
        self.stopper = threading.Thread(
            target=lambda: self.stopped.append(self.daemon.stop()), daemon=True
        )
        self.stopper.start()
        end = time.monotonic() + LIMIT
        while self.daemon.get_state() != DaemonState.STOPPING:
            time.sleep(0.0002)
            check(time.monotonic() < end, f"{what}: never stopping")
        self.state = "stopping"
        # in time to be waited for
        while self.state == "stopping":
            self.world.step(what, self.thread)

    def pause(self, what: str) -> None:
        """Pause it."""
        same(self.daemon.pause(), self.state == "running", f"{what}: pausing")
        if self.state == "running":
            self.state = "paused"

    def unpause(self, what: str) -> None:
        """Go on."""
        same(self.daemon.unpause(), self.state == "paused", f"{what}: going on")
        if self.state == "paused":
            self.state = "running"

    def set_rate(self, rate: float) -> None:
        """What isn't a rate is ignored."""
        self.daemon.set_rate(rate)
        if rate > 0:
            self.rate = rate

    def check(self, what: str) -> None:
        """Compare what can be asked for."""
        same(self.daemon.get_rate(), self.rate, f"{what}: {self.name}'s rate")


class Keeper(Actor):
    """The time keeper, its iterations take no (real) time."""

    def __init__(self, world: "World", rate: float) -> None:
        super().__init__(world, "keeper", rate)
        sim = world.sim
        self.daemon = TimeKeeper(
            "keeper", rate, world.scale, sim.time, sim.sleep
        )
        self.last = sim.now

    def clock(self) -> float:
        return self.world.sim.now

    def pace(self, amount: float) -> float:
        return amount

    def body(self) -> Iterator[float]:
        now = self.world.sim.now
        self.world.app += (now - self.last) * self.world.scale
        self.last = now
        yield from ()

    def check(self, what: str) -> None:
        super().check(what)
        same(self.daemon.get_time(), self.world.app, f"{what}: the time")


class Worker(Actor):
    """A task that takes its time."""

    def __init__(self, world: "World", num: int, spec: Any) -> None:
        super().__init__(world, f"worker{num}", spec["rate"])
        self.spec = spec
        self.reports = spec["callback"]
        self.metrics = world.env if spec["env"] else None
        self.calls = 0
        self.daemon = Daemon(
            self.name,
            self.task,
            spec["rate"],
            self.overrun if spec["callback"] else None,
            env=self.metrics,
            time_keeper=world.keeper.daemon,
        )

    def part(self, num: int) -> Any:
        """What an execution of the task does."""
        tasks = self.spec["tasks"]
        return tasks[num % len(tasks)]

    def task(self) -> None:
        """What is run periodically."""
        self.got.append(("task", self.daemon.get_time()))
        durations, action, arg = self.part(self.calls)
        self.calls += 1
        for amount in durations:
            self.world.sim.sleep(amount)
        if action == "rate":
            self.daemon.set_rate(arg)
        elif action == "pause":
            self.daemon.pause()
        self.got.append(("done", self.daemon.get_time()))

    def body(self) -> Iterator[float]:
        self.want.append(("task", self.clock()))
        durations, action, arg = self.part(self.runs)
        yield from durations
        if action == "rate":
            if arg > 0:
                self.rate = arg
        elif action == "pause":
            if self.state == "running":
                self.state = "paused"
        self.want.append(("done", self.clock()))

    def overrun(self, start: float, end: float, rate: float, _: Any) -> None:
        """An iteration took too long."""
        self.got.append(("overrun", start, end, rate))

    def check(self, what: str) -> None:
        super().check(what)
        if self.metrics is None:
            return
        for name, value in (
            ("overruns", self.overruns),
            ("uptime", self.uptime),
            ("cycle_time", self.cycle),
        ):
            same(
                self.metrics.get_metric(f"{self.name}.{name}"),
                value,
                f"{what}: {name} of {self.name}",
            )


class Telemetry(Actor):
    """A telemetry daemon, its task is to dispatch."""

    def __init__(self, world: "World", spec: Any) -> None:
        super().__init__(world, "telemetry", spec["rate"])
        self.daemon = TelemetryDaemon(
            self.name,
            1400,
            spec["rate"],
            world.keeper.daemon,
            app_id_basis=0.5,
        )
        self.chans = {
            self.daemon.add_channel(f"chan{num}", Primitive.UINT32, rate): [
                rate,
                0.0,
            ]
            for num, rate in enumerate(spec["channels"])
        }
        self.types = envs.channel_types(self.daemon)

    def body(self) -> Iterator[float]:
        now = self.clock()
        due = []
        for ident, chan in self.chans.items():
            if now >= chan[0] + chan[1]:
                due.append(ident)
                chan[1] = now
        if due:
            self.want.append((int(now * 1000), due))
        yield from ()

    def channel(self, num: int, rate: float) -> None:
        """Another rate for one of the channels."""
        ident = list(self.chans)[num % len(self.chans)]
        self.daemon.set_channel_rate(ident, rate)
        self.chans[ident][0] = rate

    def follow(self, slept: Optional[float], what: str) -> None:
        for data in envs.drain(self.daemon):
            frame = envs.parse(data, self.types, True)
            self.got.append(
                (frame["timestamp"], sorted(x[0] for x in frame["elems"]))
            )
        super().follow(slept, what)


class World:
    """A time keeper and those who live by its time."""

    def __init__(self, case: Any) -> None:
        self.sim = Sim(case["now"])
        self.scale = case["scale"]
        self.app = case["now"]
        self.env = TelemetryEnvironment(512, metrics_rate=1.0)
        self.keeper = Keeper(self, case["keeper"])
        self.actors: List[Actor] = [self.keeper]
        for num, spec in enumerate(case["workers"]):
            self.actors.append(Worker(self, num, spec))
        if case["telemetry"] is not None:
            self.actors.append(Telemetry(self, case["telemetry"]))

    def step(self, what: str, thread: Any = None) -> bool:
        """Until somebody sleeps again."""
        if thread is None:
            if not self.sim.parked:
                return False
            thread = self.sim.first()
        actor = next(x for x in self.actors if x.thread is thread)
        actor.follow(self.sim.wake(thread), what)
        actor.check(what)
        return True

    def end(self) -> None:
        """Stop everything, however it went."""
        self.sim.finish()
        for actor in self.actors:
            if actor.daemon.get_state() == DaemonState.PAUSED:
                actor.daemon.unpause()
            actor.daemon.stop()


def run(case: Any, rec: Rec) -> None:
    """Threads that live by a keeper's time, one step at a time."""
    world = World(case)
    threading.excepthook = lambda _: None
    actors = world.actors
    steps = 0
    try:
        for actor in actors:
            actor.start("start")
        for num, (kind, which, arg) in enumerate(case["ops"]):
            what = f"op {num} ({kind} {which} {arg})"
            actor = actors[which % len(actors)]
            if kind == "run":
                for _ in range(arg):
                    if not world.step(what):
                        break
                    steps += 1
            elif kind == "scale":
                world.keeper.daemon.scale(arg)
                world.scale = arg
            elif kind == "rate":
                actor.set_rate(arg)
            elif kind == "channel":
                last = actors[-1]
                if isinstance(last, Telemetry) and last.chans:
                    last.channel(which, arg)
            else:
                getattr(actor, kind)(what)
            actor.check(what)
    finally:
        world.end()
    over = sum(x.overruns for x in actors)
    if over:
        rec.label("overruns")
    rec.count("iterations", sum(x.runs for x in actors))
    rec.count("overruns", over)
    rec.nontrivial(over and sum(x.runs > 3 for x in actors) > 1)


def parts(low: int, high: int, unit: int = 64) -> Any:
    """Amounts whose sums are exact."""
    return st.integers(low, high).map(lambda x: x / unit)


rates = st.one_of(
    st.sampled_from([0.25, 0.5, 1.0, 0.125, 2.0]), parts(1, 128)
)
bad_rates = st.sampled_from([0.0, -1.0, -0.5])
actions = gen.weighted(
    (6, st.just(("none", 0))),
    (1, st.tuples(st.just("rate"), st.one_of(rates, bad_rates))),
    (1, st.just(("pause", 0))),
)
tasks = st.lists(
    st.tuples(
        st.one_of(
            st.just([]),
            st.lists(
                st.one_of(parts(0, 64), rates, st.just(1.0)),
                min_size=1,
                max_size=3,
            ),
        ),
        actions,
    ).map(lambda x: [x[0], *x[1]]),
    min_size=1,
    max_size=4,
)
workers = st.fixed_dictionaries(
    {
        "rate": rates,
        "env": st.booleans(),
        "callback": st.sampled_from([True, True, False]),
        "tasks": tasks,
    }
)
scales = st.sampled_from([1.0, 1.0, 2.0, 0.5, 4.0, 0.25])
ops = gen.weighted(
    (10, st.tuples(st.just("run"), st.just(0), st.integers(1, 24))),
    (2, st.tuples(st.just("scale"), st.just(0), scales)),
    (
        2,
        st.tuples(
            st.just("rate"), st.integers(0, 3), st.one_of(rates, bad_rates)
        ),
    ),
    (2, st.tuples(st.just("channel"), st.integers(0, 3), rates)),
    (1, st.tuples(st.just("pause"), st.integers(0, 3), st.just(0))),
    (3, st.tuples(st.just("unpause"), st.integers(0, 3), st.just(0))),
    (1, st.tuples(st.just("stop"), st.integers(0, 3), st.just(0))),
    (2, st.tuples(st.just("start"), st.integers(0, 3), st.just(0))),
)
cases = st.fixed_dictionaries(
    {
        "now": st.sampled_from([1000.0, 4096.5, 65536.0]),
        "scale": scales,
        "keeper": st.one_of(st.sampled_from([0.0625, 0.125, 0.25]), rates),
        "workers": gen.weighted(
            (5, st.lists(workers, min_size=1, max_size=2)), (1, st.just([]))
        ),
        "telemetry": st.one_of(
            st.none(),
            st.fixed_dictionaries(
                {"rate": rates, "channels": st.lists(rates, max_size=4)}
            ),
        ),
        "ops": st.lists(ops, min_size=3, max_size=20),
    }
)


PROP = Prop(
    "C33",
    [
        Facet(
            "simulated",
            lambda: cases,
            run,
            6000,
            rule="a time keeper, tasks that take their time and a telemetry "
            "daemon in simulated time; non-trivial = overruns, and more than "
            "three iterations of several of them",
        ),
    ],
    assumptions=[
        "an iteration that takes exactly its period counts as an overrun",
        "a new rate or scale doesn't end a sleep that has begun",
        "times, rates and scales are such that sums and products are exact",
    ],
)
