"""C20: application time advances by scaled real time, all clients agree."""

from __future__ import annotations

import math
import threading
from typing import Any, Dict, List, Optional, Tuple

from hypothesis import strategies as st
from vtelem.classes.metered_queue import create
from vtelem.classes.time_entity import TimeEntity
from vtelem.classes.time_keeper import TimeKeeper
from vtelem.daemon import DaemonState
from vtelem.daemon.command_queue import CommandQueueDaemon
from vtelem.daemon.queue import QueueDaemon
from vtelem.daemon.synchronous import Daemon
from vtelem.daemon.telemetry import TelemetryDaemon
from vtelem.telemetry.environment import TelemetryEnvironment

from vt import gen, sched
from vt.core import Facet, Prop, Rec, check, same
from vt.net import until
from vt.props.c17 import Gate

# powers of two times small numbers: all arithmetic on them is exact
EXACT = [1.0, 0.0, 2.0, 0.5, 0.25, 8.0, 3.0, 1.5, 0.0625, 64.0]
ODD = [0.1, 1 / 3, 1e-3, 7.77, 1e-9, 1e5]
HARD = [1e-320, 5e-324, 1e-200, 1e-12]
LONGEST = 9e9  # time.sleep() takes nothing that ends after 2**63 ns
REFUSED = [float("inf"), -1.0, -0.0625, -1e-300, float("-inf"), float("nan")]

scales = gen.weighted(
    (8, st.sampled_from(EXACT)),
    (1, st.integers(0, 512).map(lambda x: x / 64)),
    (2, st.sampled_from(REFUSED)),
    (1, st.sampled_from(ODD)),
    (1, st.sampled_from(HARD)),
)
real = st.integers(0, 400).map(lambda x: x / 32)
starts = st.sampled_from([0.0, 1024.0, 1.5, 2.0**30, 2.0**30 + 0.375])
kinds = st.sampled_from(
    ["entity", "env", "daemon", "telemetry", "queue", "command", "keeper"]
)
histories = st.fixed_dictionaries(
    {
        "start": starts,
        "scale": st.one_of(st.just(1.0), st.sampled_from(EXACT)),
        "steps": st.lists(
            gen.weighted(
                (6, st.tuples(st.just("elapse"), real)),
                (1, st.tuples(st.just("back"), real)),
                (6, st.tuples(st.just("update"), st.just(0))),
                (2, st.tuples(st.just("slow"), real)),
                (4, st.tuples(st.just("scale"), scales)),
                (3, st.tuples(st.just("add"), kinds)),
                (3, st.tuples(st.just("sleep"), real)),
                (1, st.tuples(st.just("slaves"), st.just(0))),
            ),
            min_size=4,
            max_size=40,
        ),
    }
)


class Clock:
    """Real time under control."""

    def __init__(self, now: float) -> None:
        self.now = now
        self.lag = 0.0
        self.slept: List[float] = []

    def time(self) -> float:
        """The time, that can pass while it's looked at."""
        result = self.now
        self.now += self.lag
        return result

    def sleep(self, amount: float) -> None:
        """Like time.sleep() in what it accepts."""
        if amount < 0:
            raise ValueError("sleep length must be non-negative")
        if not amount <= LONGEST:
            raise OverflowError("timestamp too large to convert")
        self.slept.append(amount)


def client(kind: str, num: int, keeper: TimeKeeper) -> Tuple[Any, Any]:
    """Something whose time is kept, None if it isn't added yet."""
    name = f"client{num}"
    if kind == "entity":
        return TimeEntity(), False
    if kind == "env":
        return TelemetryEnvironment(512, app_id_basis=0.5), False
    if kind == "daemon":
        return Daemon(name, lambda: None, 1.0, time_keeper=keeper), True
    if kind == "telemetry":
        return TelemetryDaemon(name, 512, 1.0, keeper, app_id_basis=0.5), True
    if kind == "queue":
        return (
            QueueDaemon(name, create(name), lambda _: None, None, keeper),
            True,
        )
    if kind == "command":
        env = TelemetryEnvironment(512, app_id_basis=0.5)
        return CommandQueueDaemon(name, env, keeper), True
    return TimeKeeper(name, 1.0, time_fn=lambda: -5.0), False


def close(got: float, want: float, what: str, exact: bool) -> None:
    """Compare times."""
    if exact:
        same(got, want, what)
    else:
        check(
            math.isclose(got, want, rel_tol=1e-9, abs_tol=1e-9),
            f"{what}: got {got!r}, expected about {want!r}",
        )


def run(case: Any, rec: Rec) -> None:
    """A keeper that's driven directly, against a model."""
    clock = Clock(case["start"])
    keeper = TimeKeeper("keeper", 1.0, case["scale"], clock.time, clock.sleep)
    want = clock.now
    last = clock.now
    scale = case["scale"]
    exact = True
    members: List[Tuple[str, Any]] = []
    updates = 0
    backwards = False
    same(keeper.get_time(), want, "the time at the start")
    for num, (kind, arg) in enumerate(case["steps"]):
        what = f"step {num} ({kind} {arg})"
        before = keeper.get_time()
        agree = False
        if kind == "elapse":
            clock.now += arg
        elif kind == "back":
            clock.now -= arg
            backwards = True
        elif kind == "update":
            keeper.iteration()
            delta = clock.now - last
            want += delta * scale
            last = clock.now
            updates += delta != 0
            agree = True
            if not backwards:
                check(
                    keeper.get_time() >= before,
                    f"{what}: time went back from {before} to "
                    f"{keeper.get_time()}",
                )
            backwards = False
        elif kind == "slow":
            # real time passes during an update, the next one makes up for it
            least = want + (clock.now - last) * scale
            clock.lag = arg
            keeper.iteration()
            clock.lag = 0.0
            most = want + (clock.now - last) * scale
            got = keeper.get_time()
            slack = 0.0 if exact else 1e-9 * max(1.0, abs(most))
            check(
                least - slack <= got <= most + slack,
                f"{what}: the time is {got}, not in {least} .. {most}",
            )
            keeper.iteration()
            want = most
            last = clock.now
            updates += 1
            agree = True
            backwards = False
        elif kind == "scale":
            keeper.scale(arg)
            if 0 <= arg < math.inf:
                scale = arg
                exact = exact and arg * 64 == int(arg * 64)
            else:
                rec.label("negative-scale")
            check(keeper.scalar >= 0, f"{what}: the scale is {keeper.scalar}")
        elif kind == "add":
            member, added = client(arg, num, keeper)
            if not added:
                keeper.add_slave(member)
            members.append((arg, member))
            close(member.get_time(), want, f"{what}: its time", exact)
            rec.label(arg)
        elif kind == "slaves":
            keeper.set_slaves()
            agree = True
        else:
            clock.slept.clear()
            keeper.sleep(arg)
            if scale == 0 or arg / scale > 1e9:
                # nothing is long enough
                rec.label("slept-at-zero")
            else:
                total = sum(clock.slept)
                check(
                    math.isclose(total, arg / scale, rel_tol=1e-9),
                    f"{what}: slept {clock.slept} at scale {scale}",
                )
        exact = exact and abs(want) < 2**40
        close(keeper.get_time(), want, f"{what}: the time", exact)
        if agree:
            for name, member in members:
                same(
                    member.get_time(),
                    keeper.get_time(),
                    f"{what}: the time of a managed {name}",
                )
        if not exact:
            want = keeper.get_time()
    rec.nontrivial(updates > 1 and len(members) > 0)


# -- started ------------------------------------------------------------------

lives = st.fixed_dictionaries(
    {
        "start": starts,
        "scale": st.sampled_from(EXACT),
        "rate": st.sampled_from([0.5, 2.0]),
        "env": st.booleans(),
        "steps": st.lists(
            gen.weighted(
                (10, st.tuples(st.just("keep"), real)),
                (5, st.tuples(st.just("work"), st.just(0))),
                (
                    4,
                    st.tuples(
                        st.just("scale"),
                        gen.weighted(
                            (4, st.sampled_from(EXACT)),
                            (2, st.just(0.0)),
                            (2, st.sampled_from(HARD)),
                            (1, st.sampled_from(REFUSED)),
                        ),
                    ),
                ),
                (2, st.tuples(st.just("add"), st.just(0))),
                (1, st.tuples(st.just("pause"), st.just(0))),
                (1, st.tuples(st.just("unpause"), st.just(0))),
            ),
            min_size=4,
            max_size=30,
        ),
    }
)


class Life:
    """A keeper's and a client's thread that are stepped."""

    def __init__(self, case: Any) -> None:
        self.clock = Clock(case["start"])
        self.gates = {"keeper": Gate(), "worker": Gate()}
        self.worker: Optional[int] = None
        self.runs = 0
        self.keeper = TimeKeeper(
            "keeper", 1.0, case["scale"], self.clock.time, self.sleep
        )
        env = TelemetryEnvironment(512, metrics_rate=1.0, app_id_basis=0.5)
        self.daemon = Daemon(
            "worker",
            self.task,
            case["rate"],
            env=env if case["env"] else None,
            time_keeper=self.keeper,
        )
        self.amount = 0.0

    def task(self) -> None:
        """The client's task."""
        self.worker = threading.get_ident()
        self.runs += 1

    def sleep(self, amount: float) -> None:
        """Both threads are parked here."""
        Clock(0.0).sleep(amount)
        if threading.get_ident() == self.worker:
            self.amount = amount
            self.gates["worker"].arrive("sleep", amount)
        else:
            self.gates["keeper"].arrive("sleep", amount)

    def parked(self, name: str) -> bool:
        """Wait until a thread sleeps, or has ended."""
        gate = self.gates[name]
        daemon = self.keeper if name == "keeper" else self.daemon

        def there() -> bool:
            if gate.at is not None and not gate.go:
                return True
            thread = daemon.thread
            return thread is not None and not thread.is_alive()

        until(there)
        return gate.at is not None

    def go(self, name: str) -> None:
        """Let a thread run until it sleeps again."""
        self.gates[name].release()
        check(self.parked(name), f"the {name}'s thread doesn't go on", "dead")


def run_life(case: Any, rec: Rec) -> None:
    """A keeper and a client that are running."""
    life = Life(case)
    want = last = life.clock.now
    scale = case["scale"]
    others: List[TimeEntity] = []
    paused = False
    hard = False
    kept = 0
    try:
        check(life.keeper.start(), "the keeper can't be started")
        check(life.parked("keeper"), "the keeper doesn't run")
        check(life.daemon.start(), "a client can't be started")
        check(life.parked("worker"), "a client doesn't run")
        for num, (kind, arg) in enumerate(case["steps"]):
            what = f"step {num} ({kind} {arg})"
            if kind == "keep":
                life.clock.now += arg
                life.go("keeper")
                if not paused:
                    want += (life.clock.now - last) * scale
                    last = life.clock.now
                    kept += 1
                close(life.keeper.get_time(), want, f"{what}: time", not hard)
                want = life.keeper.get_time()
                for member in others + [life.daemon]:
                    same(member.get_time(), want, f"{what}: a client's time")
            elif kind == "work":
                before = life.runs
                life.go("worker")
                same(life.runs, before + 1, f"{what}: runs of the client")
                amount = case["rate"]
                if scale > 0 and amount / scale < 1e9:
                    check(
                        math.isclose(
                            life.amount, amount / scale, rel_tol=1e-9
                        ),
                        f"{what}: slept {life.amount} at scale {scale}",
                    )
            elif kind == "scale":
                life.keeper.scale(arg)
                if 0 <= arg < math.inf:
                    scale = arg
                    hard = hard or arg in HARD
                    if scale in HARD + [0.0]:
                        rec.label("no-time")
            elif kind == "add":
                others.append(TimeEntity(-5.0))
                life.keeper.add_slave(others[-1])
                same(others[-1].get_time(), want, f"{what}: its time")
            elif kind == "pause":
                same(life.keeper.pause(), not paused, f"{what}: pausing")
                paused = True
            else:
                same(life.keeper.unpause(), paused, f"{what}: unpausing")
                paused = False
        if paused:
            check(life.keeper.unpause(), "the keeper can't be unpaused")
        for gate in life.gates.values():
            gate.free(True)
        for name, daemon in (("client", life.daemon), ("keeper", life.keeper)):
            # while it doesn't sleep, it can't miss that it has to stop
            check(daemon.stop(), f"the {name} can't be stopped")
            same(
                daemon.get_state(), DaemonState.IDLE, f"the {name}'s state"
            )
    finally:
        for gate in life.gates.values():
            gate.free(True)
        for daemon in (life.daemon, life.keeper):
            if daemon.get_state() == DaemonState.PAUSED:
                daemon.unpause()
            daemon.stop()
    rec.nontrivial(kept > 2 and len(case["steps"]) > 6)


# -- interleavings ------------------------------------------------------------

actions = gen.weighted(
    (3, st.tuples(st.just("update"), st.just(0))),
    (2, st.tuples(st.just("scale"), st.sampled_from([0.0, 2.0, 0.5]))),
    (2, st.tuples(st.just("add"), st.just(0))),
    (1, st.tuples(st.just("slaves"), st.just(0))),
    (1, st.tuples(st.just("sleep"), st.just(1.0))),
)
races = st.fixed_dictionaries(
    {
        "one": st.lists(actions, min_size=1, max_size=2),
        "two": st.lists(actions, min_size=1, max_size=2),
        "fine": st.sampled_from([False, True, True]),
        "picks": st.lists(
            st.floats(0, 1, exclude_max=True), min_size=20, max_size=20
        ),
    }
)


class Scene:
    """A keeper whose real time advances by one at every look."""

    def __init__(self) -> None:
        self.now = 64.0
        self.slept: List[float] = []
        self.keeper = TimeKeeper("keeper", 1.0, 1.0, self.time, self.sleep)
        self.members: List[TimeEntity] = []
        self.add()

    def time(self) -> float:
        """The real time."""
        self.now += 1.0
        return self.now

    def sleep(self, amount: float) -> None:
        """Note the amount."""
        self.slept.append(amount)

    def add(self) -> float:
        """Add a member."""
        member = TimeEntity(-5.0)
        self.members.append(member)
        self.keeper.add_slave(member)
        return member.get_time()

    def act(self, kind: str, arg: Any) -> Any:
        """Do something."""
        if kind == "update":
            return self.keeper.iteration()
        if kind == "scale":
            return self.keeper.scale(arg)
        if kind == "slaves":
            return self.keeper.set_slaves()
        if kind == "sleep":
            return self.keeper.sleep(arg)
        self.add()
        return None

    def observe(self) -> Dict[str, Any]:
        """All times."""
        times = [x.get_time() for x in self.members]
        return {
            "time": self.keeper.get_time(),
            "members": times,
            "slept": list(self.slept),
        }


def run_race(case: Any, rec: Rec) -> None:
    """Two threads use a keeper."""

    def calls(which: str) -> Any:
        """The operations of a thread."""
        return [
            lambda scene, step=step: scene.act(*step) for step in case[which]
        ]

    count = sched.explore(
        Scene,
        calls("one"),
        calls("two"),
        lambda scene: scene.observe(),
        case["picks"],
        case["fine"],
        rec=rec,
        what=f"{case['one']} and {case['two']}",
    )
    rec.nontrivial(count > 5)


PROP = Prop(
    "C20",
    [
        Facet(
            "model",
            lambda: histories,
            run,
            12000,
            rule="histories of elapsing time, updates, scales (also zero, "
            "tiny, negative), sleeps and clients of all kinds; non-trivial = "
            "more than one update with elapsed time and a client",
        ),
        Facet(
            "running",
            lambda: lives,
            run_life,
            400,
            thorough=8000,
            rule="the threads of a running keeper and a client, stepped; "
            "non-trivial = more than two updates, more than six steps",
        ),
        Facet(
            "threads",
            lambda: races,
            run_race,
            250,
            thorough=5000,
            rule="updates, scales and added clients by two threads, one "
            "interrupted at lines or bytecodes; non-trivial = more than five "
            "points",
        ),
    ],
    assumptions=[
        "how long something sleeps while the scale is zero (or so small that "
        "no sleep is long enough) isn't specified, only that it works",
        "scales are finite and products don't overflow",
        "clients have the keeper's time after an update, not while one is "
        "under way",
    ],
)
