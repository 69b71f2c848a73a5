"""
A reference model of channels, events and dispatches, and a driver that applies
a generated history to the model and to a real telemetry environment.
"""

from __future__ import annotations

import math
import struct
from typing import Any, Dict, List, Optional, Set, Tuple

from hypothesis import strategies as st
from vtelem.enums.primitive import Primitive

from vt import envs, gen, ref
from vt.core import Violation, check, short

FLOATS = ("FLOAT", "DOUBLE")


def accepts(prim: str, value: Any) -> bool:
    """Whether a channel of some type takes a value."""
    if prim == "BOOLEAN":
        return isinstance(value, bool)
    if prim in FLOATS:
        if not isinstance(value, float):
            return False
        if prim == "DOUBLE" or not math.isfinite(value):
            return True
        try:
            ref.pack(prim, value)
        except OverflowError:
            return False
        return True
    if not isinstance(value, int):
        return False
    low, high = ref.bounds(prim)
    return low <= value <= high


def stored(prim: str, value: Any) -> Any:
    """What a channel holds after it took a value."""
    if prim == "BOOLEAN":
        return bool(value)
    return float(value) if prim in FLOATS else int(value)


def default(prim: str) -> Any:
    """The initial value of a channel."""
    return stored(prim, 0)


def alike(one: Any, two: Any) -> bool:
    """Equality of values in which a NaN equals itself, types matter."""
    if type(one) is not type(two):
        return False
    if isinstance(one, float) and math.isnan(one):
        return math.isnan(two)
    return one == two


def on_wire(prim: str, value: Any) -> Any:
    """The bytes that carry a value."""
    try:
        return ref.pack(prim, value)
    except (OverflowError, struct.error):
        return None


class Chan:
    """The model of a channel."""

    def __init__(self, ident: int, spec: Dict[str, Any]) -> None:
        self.ident = ident
        self.name = spec["name"]
        self.prim = spec["prim"]
        self.rate = spec["rate"]
        self.track = spec["track"]
        self.commandable = spec.get("commandable", True)
        self.value = default(self.prim)
        self.last_set = 0.0
        self.last_emitted = 0.0

    def due(self, time: float) -> bool:
        """Whether the emission interval has elapsed."""
        return time >= self.last_emitted + self.rate


class Model:
    """The model of an environment's channels."""

    def __init__(self) -> None:
        self.chans: List[Chan] = []
        self.events: List[Tuple[int, Any, int, Any, int]] = []

    def by_name(self, name: str) -> Optional[Chan]:
        """Find a channel."""
        for chan in self.chans:
            if chan.name == name:
                return chan
        return None

    def assign(self, chan: Chan, value: Any, time: Optional[float]) -> None:
        """An accepted assignment."""
        when = 0.0 if time is None else time
        new = stored(chan.prim, value)
        if chan.track and chan.value != new:
            self.events.append(
                (
                    chan.ident,
                    on_wire(chan.prim, chan.value),
                    int(chan.last_set * 1000),
                    on_wire(chan.prim, new),
                    int(when * 1000),
                )
            )
        chan.value = new
        chan.last_set = when

    def emit(self, time: float) -> List[Tuple[int, Any]]:
        """What a dispatch emits."""
        result = []
        for chan in self.chans:
            if chan.due(time):
                result.append((chan.ident, on_wire(chan.prim, chan.value)))
                chan.last_emitted = time
        return result

    def consume(self) -> List[Tuple[int, Any, int, Any, int]]:
        """What a dispatch reports as events."""
        result = self.events
        self.events = []
        return result


def plus(value: Any, amount: Any) -> Any:
    """A sum, nothing when there isn't one."""
    try:
        return value + amount
    except (TypeError, OverflowError):
        return None


class Driver:
    """Runs a history against the model and the real environment."""

    def __init__(self, env: Any, judge: Set[str], spec: Any) -> None:
        self.env = env
        self.model = Model()
        self.judge = judge
        self.crc = spec["crc"]
        self.now = env.get_time()
        self.stats: Dict[str, int] = {}
        self.user: Set[int] = set()

    def bump(self, name: str, amount: int = 1) -> None:
        """Count something."""
        self.stats[name] = self.stats.get(name, 0) + amount

    # -- registering

    def adopt(self, ident: int, spec: Dict[str, Any]) -> Chan:
        """A channel the environment was created with."""
        chan = Chan(ident, spec)
        self.model.chans.append(chan)
        self.user.add(ident)
        return chan

    def add(self, spec: Dict[str, Any]) -> None:
        """Register a channel, or a name that is taken."""
        init = None if spec["init"] is None else tuple(spec["init"])
        taken = self.model.by_name(spec["name"]) is not None
        good = init is None or accepts(spec["prim"], init[0])
        try:
            ident: Optional[int] = self.env.add_channel(
                spec["name"],
                Primitive[spec["prim"]],
                spec["rate"],
                **envs.options(
                    track_change=spec["track"],
                    initial=init,
                    commandable=spec["commandable"],
                ),
            )
        except AssertionError:
            ident = None
        if "accept" in self.judge:
            check(
                (ident is not None) == (good and not taken),
                f"registering {short(spec)} "
                + ("failed" if ident is None else "succeeded"),
            )
        if ident is None:
            self.bump("refused-add")
            return
        chan = self.adopt(ident, spec)
        if init is not None:
            self.model.assign(chan, init[0], init[1])

    # -- assigning

    def value(self, chan: Chan, raw: Any) -> Any:
        """'again' is the value the channel holds."""
        if isinstance(raw, dict) and "again" in raw:
            return chan.value
        return raw

    def assign(self, step: Dict[str, Any]) -> None:
        """One assignment of whatever kind."""
        if not self.model.chans:
            return
        chan = self.model.chans[step["chan"] % len(self.model.chans)]
        real = self.env.channel_registry.get_item(chan.ident)
        value = self.value(chan, step["value"])
        kind = step["kind"]
        time: Optional[float] = step["time"]
        allowed = True
        want = value
        if kind == "set":
            result = real.set(value, time)
        elif kind == "add":
            want = plus(chan.value, value)
            result = real.add(value, time)
        elif kind == "now":
            time = self.now
            result = self.env.set_now(chan.ident, value)
        elif kind == "command":
            allowed = chan.commandable
            result = real.command(value, time)
        elif kind == "increment":
            allowed = chan.commandable
            want = plus(chan.value, value)
            result = real.command(value, time, True)
        elif kind == "by-id":
            allowed = chan.commandable
            time = self.now
            result = self.env.command_channel_id(chan.ident, value)
        elif kind == "by-name":
            allowed = chan.commandable
            time = self.now
            result = self.env.command_channel(chan.name, value)
        else:
            raise AssertionError(kind)
        good = allowed and accepts(chan.prim, want)
        self.bump(("accept-" if good else "refuse-") + kind)
        if "accept" in self.judge:
            check(
                result is good,
                f"{kind} of {short(value)} on a {chan.prim} channel holding "
                f"{short(chan.value)} (commandable={chan.commandable}) "
                f"returned {result}",
            )
        if result:
            if "accept" not in self.judge and not good:
                want = real.get()
            before = chan.value
            self.model.assign(chan, want, time)
            if chan.value != before:
                self.bump("changed")
            else:
                self.bump("unchanged")
        if "held" in self.judge:
            self.held(chan, f"{kind} of {short(value)}")

    def held(self, chan: Chan, what: str) -> None:
        """The channel holds what the model says."""
        real = self.env.channel_registry.get_item(chan.ident)
        for got in (real.get(), self.env.get_value(chan.ident)):
            check(
                alike(got, chan.value),
                f"after {what}, {chan.prim} channel reads {short(got)}, "
                f"expected {short(chan.value)}",
            )
        check(
            real.last_set == chan.last_set,
            f"after {what}, assignment time is {real.last_set}, "
            f"expected {chan.last_set}",
        )

    # -- dispatching

    def rate(self, step: Dict[str, Any]) -> None:
        """Change a rate."""
        if not self.model.chans:
            return
        chan = self.model.chans[step["chan"] % len(self.model.chans)]
        chan.rate = step["rate"]
        if step["via"]:
            self.env.set_channel_rate(chan.ident, step["rate"])
        else:
            self.env.channel_registry.get_item(chan.ident).set_rate(step["rate"])

    def metric(self, name: str) -> int:
        """The value of a counter."""
        return self.env.get_metric(name)

    def dispatch(self, step: Dict[str, Any]) -> None:
        """A dispatch, everything it sends is compared."""
        env = self.env
        metered = env.metrics is not None
        names = ("emits_captured", "events_captured", "dispatch_count")
        before = {x: self.metric(x) for x in names} if metered else {}
        how = step["how"]
        time = step["time"]
        data_part = event_part = True
        if how == "now":
            env.set_time(time)
            self.now = time
            total = env.dispatch_now(should_log=False)
        elif how == "advance":
            amount = abs(time - self.now)
            env.advance_time(amount)
            self.now += amount
            time = self.now
            total = env.dispatch_now(1, should_log=True)
        elif how == "data":
            event_part = False
            total = env.dispatch_data(time)[0]
        elif how == "events":
            data_part = False
            total = env.dispatch_events(time)[0]
        else:
            total = env.dispatch(time, should_log=step["time"] > 5)
        types = envs.channel_types(env)
        frames = [envs.parse(x, types, self.crc) for x in envs.drain(env)]
        emits: List[Tuple[int, Any]] = []
        events: List[Tuple[int, Any, int, Any, int]] = []
        all_emits = all_events = 0
        for frame in frames:
            if frame["type"] == ref.DATA:
                all_emits += frame["size"]
                emits += [x for x in frame["elems"] if x[0] in self.user]
            elif frame["type"] == ref.EVENT:
                all_events += frame["size"]
                events += [x for x in frame["elems"] if x[0] in self.user]
            else:
                raise Violation(f"a dispatch sent a frame of type {frame['type']}")
        self.bump("emitted", len(emits))
        self.bump("events", len(events))
        if len(frames) > 2:
            self.bump("overflowing")
        want_emits = self.model.emit(time) if data_part else []
        want_events = self.model.consume() if event_part else []
        if "sent" in self.judge:
            compare(emits, want_emits, f"values sent at {time}")
        if "emits" in self.judge:
            compare(emits, want_emits, f"emissions of a dispatch at {time}")
            check(
                total == len(frames),
                f"dispatch says it made {total} frames, it made {len(frames)}",
            )
            if metered:
                for name, delta in (
                    ("emits_captured", all_emits),
                    ("dispatch_count", int(data_part and event_part)),
                ):
                    got = self.metric(name) - before[name]
                    check(got == delta, f"{name} rose by {got}, not {delta}")
                check(
                    self.metric("channel_count")
                    == env.channel_registry.count(),
                    f"channel_count is {self.metric('channel_count')}, there "
                    f"are {env.channel_registry.count()}",
                )
        if "events" in self.judge:
            compare(events, want_events, f"events of a dispatch at {time}")
            if metered:
                got = self.metric("events_captured") - before["events_captured"]
                check(
                    got == all_events,
                    f"events_captured rose by {got}, not {all_events}",
                )

    def step(self, step: Dict[str, Any]) -> None:
        """Apply one step of a history."""
        act = step["do"]
        if act == "assign":
            self.assign(step)
        elif act == "dispatch":
            self.dispatch(step)
        elif act == "add":
            self.add(step["spec"])
        elif act == "rate":
            self.rate(step)
        elif act == "time":
            self.env.set_time(step["time"])
            self.now = step["time"]
        else:
            raise AssertionError(act)


def compare(one: List[Any], two: List[Any], what: str) -> None:
    """Compare what was sent with what should have been."""
    if one != two:
        at = 0
        while at < min(len(one), len(two)) and one[at] == two[at]:
            at += 1
        raise Violation(
            f"{what}: got {len(one)}, expected {len(two)}; first difference at "
            f"{at}: got {short(one[at:at + 3])}, expected "
            f"{short(two[at:at + 3])}"
        )


# -- histories ----------------------------------------------------------------

NUMBERS = st.one_of(
    st.integers(-300, 300),
    st.sampled_from([2**31, 2**63, 2**64, -1, 256, 65536, -129]),
    st.booleans(),
    st.sampled_from([0.5, 1e30, -1e300, 1e39, 0.0]),
)
WRONG = st.one_of(
    st.none(),
    st.just("1"),
    st.just([]),
    st.booleans(),
    st.integers(-(2**65), 2**65),
    st.sampled_from(
        [10**400, 2**63, 2**64, -1, 256, 65536, -129, 2**31, 0, 1]
    ),
    st.floats(),
    st.sampled_from(
        [
            float("inf"),
            float("-inf"),
            float("nan"),
            1e39,
            -1e39,
            3.4028234663852886e38,
            3.4028235677973366e38,
            3.4028235677973362e38,
            0.5,
        ]
    ),
)


@st.composite
def histories(
    draw: Any,
    weights: Dict[str, int],
    kinds: List[str],
    wrong: int = 0,
    max_steps: int = 40,
    max_chans: int = 10,
    rates: Any = gen.rates,
    hows: Tuple[str, ...] = ("plain", "plain", "now", "advance"),
    track: Any = st.booleans(),
    back: bool = True,
    wrongs: Any = WRONG,
) -> Any:
    """A list of steps, every channel that a step refers to is known."""
    acts: List[str] = []
    for name, weight in weights.items():
        acts += [name] * weight
    prims: List[str] = []
    steps: List[Dict[str, Any]] = []
    clock = 0

    def spec(fresh: bool) -> Dict[str, Any]:
        prim, value = draw(gen.any_value())
        if wrong and draw(st.integers(0, 7)) == 0:
            value = draw(wrongs)
        num = len(prims) if fresh else draw(st.integers(0, max(len(prims), 1)))
        return {
            "name": f"c{num}",
            "prim": prim,
            "rate": draw(rates),
            "track": draw(track),
            "init": draw(
                st.one_of(
                    st.none(),
                    st.tuples(
                        st.just(value), st.one_of(st.none(), gen.exact_times())
                    ),
                )
            ),
            "commandable": draw(st.sampled_from([True, True, False])),
        }

    for _ in range(draw(st.integers(1, max_chans))):
        one = spec(True)
        if not wrong or one["init"] is None or accepts(
            one["prim"], one["init"][0]
        ):
            prims.append(one["prim"])
        steps.append({"do": "add", "spec": one})
    for _ in range(draw(st.integers(1, max_steps))):
        act = draw(st.sampled_from(acts))
        if act == "assign":
            num = draw(st.integers(0, max(0, len(prims) - 1)))
            prim = prims[num] if prims else "INT8"
            roll = draw(st.integers(0, 9))
            if roll < 2:
                value: Any = {"again": True}
            elif roll < 2 + wrong:
                value = draw(wrongs)
            else:
                value = draw(gen.value_of(prim))
            steps.append(
                {
                    "do": "assign",
                    "chan": num,
                    "value": value,
                    "kind": draw(st.sampled_from(kinds)),
                    "time": draw(st.one_of(st.none(), gen.exact_times())),
                }
            )
        elif act == "dispatch":
            clock += draw(
                st.one_of(st.integers(0, 3), st.integers(0, 60))
            )
            time = clock / 8.0
            if back and draw(st.integers(0, 19)) == 0:
                time = draw(st.integers(0, max(clock, 1))) / 8.0
            steps.append(
                {
                    "do": "dispatch",
                    "time": time,
                    "how": draw(st.sampled_from(hows)),
                }
            )
        elif act == "add":
            one = spec(draw(st.integers(0, 2)) > 0)
            good = one["init"] is None or accepts(one["prim"], one["init"][0])
            if good and one["name"] == f"c{len(prims)}":
                prims.append(one["prim"])
            steps.append({"do": "add", "spec": one})
        elif act == "rate":
            steps.append(
                {
                    "do": "rate",
                    "chan": draw(st.integers(0, max(0, len(prims) - 1))),
                    "rate": draw(rates),
                    "via": draw(st.booleans()),
                }
            )
        else:
            clock += draw(st.integers(0, 20))
            steps.append({"do": "time", "time": clock / 8.0})
    return steps


def run(case: Any, judge: Set[str], first: Any = None) -> Driver:
    """Run a whole history, ends with dispatches that flush everything."""
    env = envs.make_env(case["env"])
    driver = Driver(env, judge, case["env"])
    if first is not None:
        first(driver)
    for step in case["steps"]:
        driver.step(step)
    last = max([x["time"] for x in case["steps"] if "time" in x and x["time"]] + [0])
    driver.dispatch({"do": "dispatch", "time": last + 10.0, "how": "plain"})
    driver.dispatch({"do": "dispatch", "time": last + 10.0, "how": "plain"})
    return driver
