"""C25: operations on a shared environment never disturb each other."""

from __future__ import annotations

import json
from enum import IntEnum
from io import BytesIO
from queue import Queue
from typing import Any, Callable, Dict, List, Tuple

from hypothesis import strategies as st
from vtelem.channel.group_registry import ChannelGroupRegistry
from vtelem.channel.framer import build_dummy_frame
from vtelem.classes.event_queue import EventQueue
from vtelem.classes.metered_queue import create
from vtelem.classes.state import State
from vtelem.classes.state_machine import StateMachine
from vtelem.classes.user_enum import user_enum
from vtelem.daemon import DaemonBase
from vtelem.daemon.command_queue import CommandQueueDaemon
from vtelem.daemon.http import HttpDaemon
from vtelem.daemon.synchronous import Daemon
from vtelem.daemon.manager import DaemonManager
from vtelem.enums.daemon import DaemonOperation
from vtelem.enums.primitive import Primitive
from vtelem.mtu import Host
from vtelem.registry import Registry
from vtelem.registry.enum import EnumRegistry
from vtelem.registry.enum_retry import EnumRegistry as SerializableEnums
from vtelem.registry.service import ServiceRegistry
from vtelem.registry.type import get_default
from vtelem.stream.writer import QueueClientManager, StreamWriter
from vtelem.telemetry.environment import TelemetryEnvironment

from vt import envs, gen, ref, sched
from vt.core import Facet, Prop, Rec, check, same

# name, arguments; all arguments are small so that operations collide
small = st.integers(0, 2)
value = st.integers(0, 5)
WEIGHTED = (
    (4, st.tuples(st.just("add"), small, st.booleans())),
    (2, st.tuples(st.just("add-enum"), small)),
    (2, st.tuples(st.just("enum-chan"), small, st.sampled_from(["b", "x"]))),
    (2, st.tuples(st.just("metric"), small)),
    (1, st.tuples(st.just("enum-metric"), small)),
    (4, st.tuples(st.just("set"), value)),
    (2, st.tuples(st.just("command"), value)),
    (3, st.tuples(st.just("increment"), value)),
    (2, st.tuples(st.just("metric-add"), value)),
    (2, st.tuples(st.just("set-metric"), value)),
    (1, st.tuples(st.just("enum-set"), st.sampled_from(["a", "b", "x"]))),
    (6, st.tuples(st.just("dispatch"), st.integers(20, 22))),
    (2, st.tuples(st.just("dispatch-data"), st.integers(20, 22))),
    (2, st.tuples(st.just("dispatch-events"), st.integers(20, 22))),
    (1, st.tuples(st.just("advance"), value)),
    (1, st.tuples(st.just("time"), value)),
    (1, st.tuples(st.just("rate"), st.integers(0, 30))),
    (1, st.tuples(st.just("mtu"), st.sampled_from([60, 80, 100, 500]))),
    (2, st.tuples(st.just("describe"), st.sampled_from(["channel", "enum", "type"]))),
    (1, st.tuples(st.just("group"), small)),
    (1, st.tuples(st.just("group-add"), small)),
    (1, st.tuples(st.just("decode"), small)),
    (2, st.tuples(st.just("count"), value)),
    (1, st.tuples(st.just("count-down"), value)),
    (1, st.tuples(st.just("reset"), value)),
    (1, st.tuples(st.just("stream"), small)),
    (1, st.tuples(st.just("end-stream"), st.integers(0, 1))),
    (1, st.tuples(st.just("queue"), small)),
    (1, st.tuples(st.just("end-queue"), st.integers(0, 1))),
    (1, st.tuples(st.just("put"), small)),
    (1, st.tuples(st.just("get"), small)),
    (1, st.tuples(st.just("write"), small)),
)
ops = gen.weighted(*WEIGHTED)
# operations that use the same things
FAMILIES = [
    [0, 1, 2, 3, 4, 20],
    [5, 6, 7, 8, 9, 10, 11, 12, 13, 17],
    [22, 23, 24, 25, 26, 27, 28, 31],
    [29, 30, 3],
]
related = st.one_of(
    *[
        st.tuples(part, part)
        for part in (
            [st.one_of(*[WEIGHTED[x][1] for x in fam]) for fam in FAMILIES]
            + [st.one_of(one) for _, one in WEIGHTED]
        )
    ]
)
pairs = gen.weighted((3, st.tuples(ops, ops)), (2, related))
setups = st.fixed_dictionaries(
    {
        "metrics": st.sampled_from([None, 1.0, 1.0]),
        "mtu": st.sampled_from([60, 120, 120]),
        "chans": st.integers(1, 4),
        "track": st.booleans(),
        "change": st.booleans(),
    }
)


def racing(pair: Any) -> Any:
    """Cases for a pair of operations."""
    return st.fixed_dictionaries(
        {
            "setup": setups,
            "pair": pair,
            "fine": st.sampled_from([False, False, False, False, True]),
            "picks": st.lists(st.floats(0, 0.999), min_size=16, max_size=16),
        }
    )


# what's checked and changed by simple operations
SHARED = [[17], [14, 15], [16, 11, 12], [22, 23, 24], [8, 9], [5, 6, 7], [20, 19]]
alike = st.one_of(
    *[
        st.tuples(part, part)
        for part in [
            st.one_of(*[WEIGHTED[x][1] for x in fam]) for fam in SHARED
        ]
    ]
)
races = racing(pairs)
close = racing(alike)


class World:
    """An environment with something in it."""

    def __init__(self, spec: Dict[str, Any]) -> None:
        self.env = TelemetryEnvironment(
            spec["mtu"], metrics_rate=spec["metrics"], app_id_basis=0.5
        )
        env = self.env
        for num in range(spec["chans"]):
            env.add_channel(f"base{num}", Primitive.UINT16, 1.0, spec["track"])
        env.add_enum(user_enum("letters", {1: "a", 4: "b"}))
        env.add_enum_channel("letter", "letters", 1.0, spec["track"])
        env.add_metric("counter", Primitive.UINT32, spec["track"], (0, None))
        self.groups = ChannelGroupRegistry(env)
        self.groups.create_group("group")
        self.groups.add_channel(0, "one", Primitive.INT8, 1.0, spec["track"])
        self.groups.add_channel(0, "two", Primitive.INT8, 1.0, spec["track"])
        env.set_time(10.0)
        env.dispatch(10.0, False)
        envs.drain(env)
        if spec["change"]:
            env.set_now(0, 77)
        self.writer = StreamWriter("writer", create(), None, env)
        self.ids: List[int] = []
        for _ in range(2):
            self.ids.append(self.writer.add_stream(BytesIO()))
            self.writer.add_queue(Queue())
        self.items = create("items", env)
        self.items.put(0)
        self.frame = build_dummy_frame(64, 0.5)

    def chan(self, num: int = 0) -> Any:
        """A channel of the environment."""
        return self.env.channel_registry.get_item(num)


def operation(op: Tuple) -> List[Callable[[World], Any]]:
    """The atomic steps of an operation."""
    kind, arg = op[0], op[1]
    name = f"new{arg}"
    if kind == "add":
        return [
            lambda w: w.env.add_channel(
                name, Primitive.INT32, 0.5, op[2], (arg + 1, 3.0)
            )
        ]
    if kind == "add-enum":
        return [lambda w: w.env.add_enum(user_enum(name, {0: "p", 5: "q"}))]
    if kind == "enum-chan":
        return [
            lambda w: w.env.add_enum_channel(
                name, "letters", 1.0, True, (op[2], 2.0)
            )
        ]
    if kind == "metric":
        return [lambda w: w.env.add_metric(name, Primitive.UINT8, True, (1, 2.0))]
    if kind == "enum-metric":
        return [
            lambda w: w.env.add_enum_metric(name, "letters", True, ("b", 2.0))
        ]
    if kind == "set":
        return [lambda w: w.env.set_now(0, arg)]
    if kind == "command":
        return [lambda w: w.env.command_channel("base0", arg)]
    if kind == "increment":
        return [lambda w: w.chan().command(arg, 12.0, True)]
    if kind == "metric-add":
        return [lambda w: w.env.metric_add("counter", arg, 11.0)]
    if kind == "set-metric":
        return [lambda w: w.env.set_metric("counter", arg, 11.0)]
    if kind == "enum-set":
        return [lambda w: w.env.command_enum_channel("letter", arg)]
    if kind == "dispatch":
        return [lambda w: w.env.dispatch(float(arg), False) and None]
    if kind == "dispatch-data":
        return [lambda w: w.env.dispatch_data(float(arg)) and None]
    if kind == "dispatch-events":
        return [lambda w: w.env.dispatch_events(float(arg)) and None]
    if kind == "advance":
        return [lambda w: w.env.advance_time(float(arg))]
    if kind == "time":
        return [lambda w: w.env.set_time(float(arg))]
    if kind == "rate":
        return [lambda w: w.env.set_channel_rate(0, float(arg))]
    if kind == "mtu":
        return [lambda w: w.env.handle_new_mtu(arg)]
    if kind == "describe":
        return [lambda w: json.loads(w.env.registries[arg].describe())]
    if kind == "group":
        return [
            lambda w: w.groups.get_item(0).write({"one": arg, "two": -arg})
        ]
    if kind == "group-add":
        return [lambda w: w.groups.add_channel(0, name, Primitive.INT8, 1.0)]
    if kind == "count":
        return [lambda w: w.writer.increment_metric("tally", arg)]
    if kind == "count-down":
        return [lambda w: w.writer.decrement_metric("tally", -arg)]
    if kind == "reset":
        return [lambda w: w.writer.reset_metric("tally", arg)]
    if kind == "stream":
        return [lambda w: w.ids.append(w.writer.add_stream(BytesIO()))]
    if kind == "end-stream":
        return [lambda w: w.writer.remove_stream(arg)]
    if kind == "queue":
        return [lambda w: w.writer.add_queue(Queue()) and None]
    if kind == "end-queue":
        return [lambda w: w.writer.remove_queue(arg)]
    if kind == "put":
        return [lambda w: w.items.put(arg)]
    if kind == "get":
        return [lambda w: w.items.get_nowait()]
    if kind == "write":
        return [lambda w: w.writer.handle(w.frame)]
    if kind == "decode":
        return [
            lambda w: str(w.env.decode_frame(b"\1" * arg, arg)),
        ]
    raise AssertionError(kind)


SETTERS = {"set", "command", "increment", "enum-set", "metric-add", "set-metric"}
DISPATCHES = {"dispatch", "dispatch-data", "dispatch-events"}


def reduced(world: World) -> Any:
    """
    What can be observed, whichever dispatch reports the event of an assignment
    that was made during a dispatch.
    """
    out = look(world)
    events: Dict[int, List[Any]] = {}
    for label in ("frames", "after"):
        values, found = out.pop(label)
        out[label + " values"] = values
        out.pop(label + " at")
        for ident, elems in found.items():
            events.setdefault(ident, []).extend(elems)
    out["events"] = events
    out["chans"] = [
        x
        if x[0] not in ("events_captured", "emits_captured", "dispatch_count")
        else x[0]
        for x in out["chans"]
    ]
    return out


def look(world: World) -> Any:
    """Everything that can be observed, the next dispatch included."""
    env = world.env
    types = envs.channel_types(env)
    out: Dict[str, Any] = {}
    chans = []
    metered = env.metrics is not None
    for ident in range(env.channel_registry.count()):
        chan = env.channel_registry.get_item(ident)
        same(
            env.channel_registry.get_id(chan.name), ident, f"id of {chan.name}"
        )
        chans.append(
            (
                chan.name,
                chan.type.name,
                chan.rate,
                chan.get(),
                chan.last_set,
                env.is_enum_channel(ident),
            )
        )
    out["chans"] = chans
    for name in ("enum", "type"):
        data = json.loads(env.registries[name].describe())
        out[name] = data["mappings"]
    writer = world.writer
    out["counts"] = {
        x: writer.function["metrics_data"][x]
        for x in (
            "tally",
            "stream_count",
            "queue_count",
            "stream_writes",
            "queue_writes",
            "bytes_written",
        )
    }
    if metered:
        for name, number in out["counts"].items():
            if env.has_metric(f"writer.{name}"):
                same(
                    env.get_metric(f"writer.{name}"), number, f"metric {name}"
                )
    out["streams"] = {
        num: x.getvalue() for num, x in writer.streams.items()
    }
    same(out["counts"]["stream_count"], len(writer.streams), "stream_count")
    same(out["counts"]["queue_count"], len(writer.queues), "queue_count")
    same(len(set(world.ids)), len(world.ids), "identifiers of streams")
    out["queues"] = {num: x.qsize() for num, x in writer.queues.items()}
    out["items"] = list(world.items.queue)
    out["time"] = env.get_time()
    out["space"] = env.framer.new_data_frame(1.0).space
    out["group"] = world.groups.get_item(0).read()
    ignored = set()
    if metered:
        out["metrics"] = sorted(env.metrics)
        ignored = {v for k, v in env.metrics.items() if k != "counter"}
        same(
            env.get_metric("channel_count"),
            env.channel_registry.count(),
            "channel_count",
        )
    for label in ("frames", "after"):
        values: List[Any] = []
        events: Dict[int, List[Any]] = {}
        times = set()
        for data in envs.drain(env):
            frame = envs.parse(data, types, True)
            times.add((frame["type"], frame["timestamp"]))
            for elem in frame["elems"]:
                if elem[0] in ignored:
                    continue
                if frame["type"] == ref.DATA:
                    values.append(tuple(elem))
                else:
                    # the order is that of the assignments of each channel
                    events.setdefault(elem[0], []).append(tuple(elem[1:]))
        out[label] = (values, events)
        out[label + " at"] = times
        if label == "frames":
            env.dispatch(50.0, False)
    out["chans"] = [
        x if not x[0].startswith("frame_queue") else x[0] for x in chans
    ]
    if metered:
        numbers = [
            env.get_metric(f"frame_queue.{x}")
            for x in ("elements", "total_enqueued", "total_dequeued")
        ]
        check(
            numbers[0] == 0 and numbers[1] == numbers[2],
            f"with no frame waiting, the frame queue's metrics are {numbers}",
        )
    return out


def run_race(case: Any, rec: Rec) -> None:
    """One operation interrupted by another one at every line."""
    first, second = case["pair"]
    kinds = {first[0], second[0]}
    if kinds == {"write"}:
        # there's one thread that writes
        second = ("stream", 0)
        kinds.add("stream")
    one, two = operation(first), operation(second)
    observe: Callable[[World], Any] = look
    if kinds & SETTERS and kinds & DISPATCHES:
        observe = reduced
        rec.label("assignment-during-dispatch")
    amount = sched.explore(
        lambda: World(case["setup"]),
        one,
        two,
        observe,
        case["picks"],
        case["fine"],
        36,
        rec,
        f"{first} against {second}",
    )
    for kind in kinds:
        rec.label(kind)
    rec.nontrivial(amount > 4)


# -- constructions ------------------------------------------------------------

BUILDS: Dict[str, Callable[[Any, str], Any]] = {
    "base": lambda env, name: DaemonBase(name, env),
    "daemon": lambda env, name: Daemon(name, lambda: None, 1.0, env=env),
    "commands": lambda env, name: CommandQueueDaemon(name, env),
    "writer": lambda env, name: StreamWriter(name, create(), None, env),
    "queue": lambda env, name: create(name, env),
    "state": lambda env, name: State(name, env=env),
    "machine": lambda env, name: StateMachine(
        name, [State(name + "a"), State(name + "b", env=env)], env=env
    ),
    "http": lambda env, name: HttpDaemon(name, env=env),
    "enum-channel": lambda env, name: env.add_enum_channel(
        name, "letters", 1.0
    ),
    "enum": lambda env, name: env.add_enum(user_enum(name, {0: "p"})),
    "from-enum": lambda env, name: env.add_from_enum(Letters),
    "metric": lambda env, name: env.add_metric(name, Primitive.UINT8),
    "dispatch": lambda env, name: env.dispatch(20.0, False),
}


class Letters(IntEnum):
    """An enumeration that several entities register."""

    ONE = 1
    TWO = 2


built = st.fixed_dictionaries(
    {
        "setup": setups,
        "one": st.sampled_from(sorted(BUILDS)),
        "two": st.sampled_from(sorted(BUILDS)),
        "fine": st.sampled_from([False, False, True]),
        "picks": st.lists(st.floats(0, 0.999), min_size=12, max_size=12),
    }
)


def names(world: World) -> Any:
    """What's registered, in any order."""
    env = world.env
    types = envs.channel_types(env)
    out: Dict[str, Any] = {}
    for kind, registry in env.registries.items():
        data = json.loads(registry.describe())["mappings"]
        same(
            sorted(data.values()),
            list(range(registry.count())),
            f"identifiers of the {kind} registry",
        )
        out[kind] = sorted(data)
    values = {}
    for ident in range(env.channel_registry.count()):
        chan = env.channel_registry.get_item(ident)
        same(
            env.channel_registry.get_id(chan.name), ident, f"id of {chan.name}"
        )
        if not chan.name.startswith("frame_queue"):
            values[chan.name] = (chan.type.name, chan.rate)
        if env.is_enum_channel(ident):
            env.get_enum_value(ident)
    out["channels"] = values
    if env.metrics is not None:
        for name, ident in env.metrics.items():
            same(env.channel_registry.get_id(name), ident, f"metric {name}")
        for kind in env.registries:
            if env.has_metric(f"{kind}_count"):
                same(
                    env.get_metric(f"{kind}_count"),
                    env.registries[kind].count(),
                    f"{kind}_count",
                )
    envs.drain(env)
    env.dispatch(100.0, False)
    sent = set()
    for data in envs.drain(env):
        frame = envs.parse(data, types, True)
        if frame["type"] == ref.DATA:
            sent.update(x[0] for x in frame["elems"])
    same(sent, set(types), "channels that are sent")
    return out


def run_built(case: Any, rec: Rec) -> None:
    """Two threads construct things that share an environment."""
    one, two = BUILDS[case["one"]], BUILDS[case["two"]]
    amount = sched.explore(
        lambda: World(case["setup"]),
        [lambda w: one(w.env, "first") and None],
        [lambda w: two(w.env, "second") and None],
        names,
        case["picks"],
        case["fine"],
        24,
        rec,
        f"{case['one']} against {case['two']}",
    )
    rec.label(case["one"])
    rec.nontrivial(amount > 4)


# -- refused operations -------------------------------------------------------

failures = st.lists(
    st.sampled_from(
        [
            "dup",
            "bad-initial",
            "dup-enum-chan",
            "bad-enum",
            "bad-label",
            "bad-type",
            "bad-metric",
            "group-unknown",
            "group-enum",
            "group-dup",
            "wrong-value",
            "unknown-id",
            "big-dispatch",
            "body",
            "lock",
            "bad-primitive",
        ]
    ),
    min_size=1,
    max_size=6,
)
broken = st.fixed_dictionaries(
    {
        "setup": setups,
        "fails": failures,
        "ops": st.lists(ops, min_size=1, max_size=6),
        "same": st.booleans(),
    }
)


def fail(world: World, kind: str) -> bool:
    """An operation that's refused, whether it was."""
    env = world.env
    try:
        if kind == "dup":
            env.add_channel("base0", Primitive.INT8, 1.0)
        elif kind == "bad-initial":
            env.add_channel("bad", Primitive.INT8, 1.0, True, (1000, None))
        elif kind == "dup-enum-chan":
            env.add_enum_channel("letter", "letters", 1.0)
        elif kind == "bad-enum":
            env.add_enum_channel("bad", "nothing", 1.0)
        elif kind == "bad-label":
            env.add_enum_channel("bad", "letters", 1.0, True, ("zzz", None))
        elif kind == "bad-type":
            env.add_enum(user_enum("float", {0: "a"}))
        elif kind == "bad-metric":
            env.set_metric("counter", -1)
            return env.metrics is None
        elif kind == "group-unknown":
            with world.groups.group(0) as data:
                data["nothing"] = 1
        elif kind == "group-enum":
            world.groups.add_enum_channel(0, "letter", "letters", 1.0)
            with world.groups.group(0) as data:
                data["letter"] = "zzz"
        elif kind == "group-dup":
            world.groups.create_group("group")
        elif kind == "wrong-value":
            return not env.set_now(0, "text")
        elif kind == "unknown-id":
            env.command_channel_id(60000, 1)
        elif kind == "big-dispatch":
            env.dispatch_now(time="nonsense", should_log=False)
            env.dispatch(1e300, False)
        elif kind == "body":
            with world.groups.group(0) as data:
                data["one"] = 3
                raise KeyError("body")
        elif kind == "lock":
            with env.lock:
                raise KeyError("while locked")
        elif kind == "bad-primitive":
            env.add_channel("bad2", "nothing", 1.0)  # type: ignore
        else:
            raise NotImplementedError(kind)
    except NotImplementedError:
        raise
    except Exception:  # pylint: disable=broad-except
        return True
    return False


def run_broken(case: Any, rec: Rec) -> None:
    """After failures, everything works from every thread."""
    world = World(case["setup"])
    refused = 0
    for kind in case["fails"]:
        if case["same"]:
            refused += fail(world, kind)
        else:
            refused += sched.alone(lambda k=kind: fail(world, k), kind) is True
    before = sched.alone(lambda: world.env.channel_registry.count(), "counting")
    for op in case["ops"]:
        for step in operation(op):
            sched.alone(
                lambda s=step: sched.attempt(s, world),
                f"{op} after {case['fails']} in another thread",
            )
    state = sched.alone(lambda: sched.attempt(look, world), "a dispatch")
    check(
        not (isinstance(state, tuple) and state[0] == "raised"),
        f"after {case['fails']}, looking at the environment fails: {state}",
    )
    same(
        len(state["chans"]) >= before, True, "channels that are still there"
    )
    # and again from this thread
    again = sched.attempt(look, world)
    check(isinstance(again, dict), f"a later look fails: {again}")
    rec.count("failures", refused)
    rec.nontrivial(refused)


# -- registrations ------------------------------------------------------------

few = st.integers(0, 1)
REGISTER = (
    (4, st.tuples(st.just("item"), few, few)),
    (4, st.tuples(st.just("enum"), few, few)),
    (2, st.tuples(st.just("from-enum"), few, few)),
    (2, st.tuples(st.just("export"), few, few)),
    (2, st.tuples(st.just("type"), few, few)),
    (3, st.tuples(st.just("group"), few, few)),
    (3, st.tuples(st.just("service"), few, few)),
    (3, st.tuples(st.just("serializable"), few, few)),
    (3, st.tuples(st.just("daemon"), few, few)),
    (2, st.tuples(st.just("all"), few, few)),
    (2, st.tuples(st.just("event"), few, few)),
    (2, st.tuples(st.just("consume"), few, few)),
    (2, st.tuples(st.just("describe"), few, few)),
    (2, st.tuples(st.just("lookup"), few, few)),
    (2, st.tuples(st.just("client"), few, few)),
    (1, st.tuples(st.just("close"), few, few)),
)
register = gen.weighted(*REGISTER)
registrations = st.fixed_dictionaries(
    {
        "pair": gen.weighted(
            (1, st.tuples(register, register)),
            (
                2,
                st.one_of(
                    *[
                        st.tuples(x, x)
                        for x in [one for _, one in REGISTER]
                        + [REGISTER[1][1] | REGISTER[3][1]]
                        + [REGISTER[8][1] | REGISTER[9][1]]
                        + [REGISTER[10][1] | REGISTER[11][1]]
                        + [REGISTER[14][1] | REGISTER[15][1]]
                    ]
                    + [
                        st.tuples(
                            st.tuples(st.just("describe"), st.just(1), few),
                            REGISTER[1][1] | REGISTER[2][1],
                        )
                    ]
                ),
            ),
        ),
        "fine": st.sampled_from([False, False, True]),
        "picks": st.lists(st.floats(0, 0.999), min_size=16, max_size=16),
    }
)


class Stand(DaemonBase):
    """Records what's done with it."""

    def __init__(self, name: str, log: List[Any]) -> None:
        super().__init__(name)
        self.log = log

    def perform(self, action: Any, *_: Any, **__: Any) -> bool:
        """Some operation."""
        self.log.append(self.name)
        return True


class Office:
    """Everything at which something can be registered."""

    def __init__(self) -> None:
        self.things: Registry = Registry("things")
        self.enums = EnumRegistry([user_enum("letters", {1: "a", 4: "b"})])
        self.types = get_default()
        self.groups = ChannelGroupRegistry(
            TelemetryEnvironment(120, app_id_basis=0.5)
        )
        self.services = ServiceRegistry()
        self.serializable = SerializableEnums()
        self.log: List[Any] = []
        self.mgr = DaemonManager()
        self.mgr.add_daemon(Stand("base", self.log))
        self.events = EventQueue()
        self.events.enqueue("first", (0, 1.0), (1, 2.0))
        self.writer = StreamWriter("writer", create())
        self.clients = QueueClientManager("clients", self.writer)
        self.clients.add_client_queue()


def registration(op: Tuple, who: int) -> Callable[[Office], Any]:
    """What a registration does."""
    kind, num, more = op
    name = f"n{num}"
    table: Dict[str, Callable[[Office], Any]] = {
        "item": lambda w: w.things.add(name, who),
        "enum": lambda w: w.enums.add_enum(user_enum(name, {who: "x"})),
        "from-enum": lambda w: w.enums.add_from_enum(Letters),
        "export": lambda w: w.enums.export(w.types),
        "type": lambda w: w.types.add(f"t{num}", Primitive.INT8),
        "group": lambda w: w.groups.create_group(name),
        "service": lambda w: w.services.add(name, [Host("here", who)]),
        "serializable": lambda w: w.serializable.add(
            user_enum(name, {who: "x"})
        ),
        "daemon": lambda w: w.mgr.add_daemon(
            Stand(name, w.log), ["base", f"n{1 - num}"][: more + 1]
        ),
        "all": lambda w: w.mgr.perform_all(DaemonOperation.START),
        "event": lambda w: w.events.enqueue(name, (0, 1.0), (who, 2.0)),
        "consume": lambda w: w.events.consume(),
        "describe": lambda w: json.loads(
            [w.things, w.enums][num].describe(bool(more))
        ),
        # a single look-up each
        "lookup": [
            lambda w: w.things.get_id(name),
            lambda w: w.things.get_item(0),
            lambda w: w.enums.get_id(name),
            lambda w: getattr(w.enums.get_item(1), "name", None),
        ][2 * num + more],
        "client": lambda w: w.clients.add_client_queue()[0],
        "close": lambda w: w.clients.close_clients(),
    }
    return table[kind]


def registered(world: Office) -> Any:
    """What there is, and how it continues."""
    out: Dict[str, Any] = {}
    for name in ("things", "enums", "types", "groups", "services"):
        registry = getattr(world, name)
        count = registry.count()
        data = json.loads(registry.describe())
        out[name] = data
        same(
            sorted(data["mappings"].values()),
            list(range(count)),
            f"identifiers of {name}",
        )
    out["next"] = world.things.add("last", 0)
    out["serializable"] = (
        json.loads(world.serializable.json_str()),
        sorted(world.serializable.enums),
    )
    out["log"] = list(world.log)
    world.log.clear()
    world.mgr.perform_all(DaemonOperation.STOP)
    out["order"] = list(world.log)
    out["events"] = world.events.consume()
    out["queues"] = sorted(world.writer.queues)
    out["closed"] = world.clients.close_clients()
    out["left"] = sorted(world.writer.queues)
    return out


def run_registration(case: Any, rec: Rec) -> None:
    """Two threads register something."""
    first, second = case["pair"]
    amount = sched.explore(
        Office,
        [registration(first, 1)],
        [registration(second, 2)],
        registered,
        case["picks"],
        case["fine"],
        36,
        rec,
        f"{first} against {second}",
    )
    rec.label(first[0], second[0])
    rec.nontrivial(amount > 2)


PROP = Prop(
    "C25",
    [
        Facet(
            "pairs",
            lambda: races,
            run_race,
            600,
            rule="pairs of operations, one interrupted by the other at every "
            "line (or picked bytecodes); non-trivial = more than four points",
        ),
        Facet(
            "alike",
            lambda: close,
            run_race,
            250,
            rule="pairs of operations that change the same thing; non-trivial "
            "= more than four points",
        ),
        Facet(
            "constructions",
            lambda: built,
            run_built,
            150,
            rule="daemons, queues, machines, enumerations and metrics built by "
            "two threads, one interrupted; non-trivial = more than four points",
        ),
        Facet(
            "registrations",
            lambda: registrations,
            run_registration,
            500,
            rule="pairs of registrations (items, enumerations, groups, "
            "services, daemons, client queues) and look-ups, one interrupted; "
            "non-trivial = more than two points",
        ),
        Facet(
            "failures",
            lambda: broken,
            run_broken,
            400,
            rule="refused and failing operations, then others in other "
            "threads; non-trivial = something was refused",
        ),
    ],
    assumptions=[
        "one preemption per schedule",
        "the event of an assignment made during a dispatch may be reported by "
        "it or by the next one",
    ],
)
