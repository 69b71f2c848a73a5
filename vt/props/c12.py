"""C12: enum channels hold only values of their enumeration."""

from __future__ import annotations

import json
from enum import IntEnum
from typing import Any, Dict, List, Optional

from hypothesis import strategies as st
from vtelem.classes.user_enum import user_enum
from vtelem.enums.primitive import Primitive
from vtelem.telemetry.environment import TelemetryEnvironment

from vt import envs, gen, ref
from vt.core import Facet, Prop, Rec, check, same

LABELS = ["idle", "run", "stop", "a", "b_c", "x1", "last"]
ENUMS = ["mode", "state", "colour", "uint8", "float", "boolean", "frame_type"]
TAKEN = {"uint8", "float", "boolean"}

labels = st.sampled_from(LABELS + ["RUN", "Stop", "B_C"])
mappings = st.lists(
    st.tuples(
        st.one_of(st.integers(0, 4), st.integers(0, 255)),
        st.sampled_from(LABELS),
    ),
    min_size=1,
    max_size=6,
    unique_by=(lambda x: x[0], lambda x: x[1]),
)
big_mappings = st.lists(
    st.tuples(
        st.sampled_from([0, 1, 255, 256, 300, -1]), st.sampled_from(LABELS)
    ),
    min_size=1,
    max_size=6,
    unique_by=(lambda x: x[0], lambda x: x[1]),
)
enum_defs = st.fixed_dictionaries(
    {
        "name": st.sampled_from(ENUMS),
        "map": gen.weighted((4, mappings), (1, big_mappings)),
        "default": st.integers(-1, 5),
        "klass": st.booleans(),
    }
)
chan = st.one_of(st.integers(0, 2), st.integers(0, 7))
names = gen.weighted(
    (4, st.integers(0, 6).map(lambda x: ("known", x))),
    (1, labels.map(lambda x: ("label", x))),
    (1, st.sampled_from(["", "nothing", "0", "unknown"]).map(lambda x: ("label", x))),
)
cases = st.fixed_dictionaries(
    {
        "env": envs.specs,
        "initial": st.lists(
            enum_defs.filter(
                lambda x: x["name"] not in TAKEN | {"frame_type"}
            ),
            max_size=2,
            unique_by=lambda x: x["name"],
        ),
        "steps": st.lists(
            gen.weighted(
                (3, st.tuples(st.just("enum"), enum_defs)),
                (
                    4,
                    st.fixed_dictionaries(
                        {
                            "name": chan,
                            "enum": gen.weighted(
                                (6, st.integers(0, 5)),
                                (1, st.sampled_from(ENUMS + ["nothing"])),
                            ),
                            "initial": st.one_of(st.none(), names),
                            "track": st.booleans(),
                            "commandable": st.sampled_from([True, True, False]),
                            "metric": st.sampled_from([False, False, True]),
                        }
                    ).map(lambda x: ("channel", x)),
                ),
                (1, st.tuples(st.just("plain"), chan)),
                (
                    6,
                    st.tuples(
                        st.sampled_from(["set", "set", "id", "name", "name", "metric"]),
                        chan,
                        names,
                        st.booleans(),
                    ),
                ),
                (2, st.tuples(st.just("dispatch"), st.integers(1, 40))),
            ),
            min_size=8,
            max_size=40,
        ),
    }
)


def build(spec: Dict[str, Any]) -> Any:
    """An enumeration of a definition, and its mapping of names to values."""
    pairs = {int(k): v for k, v in spec["map"]}
    default = None
    if 0 <= spec["default"] < len(spec["map"]):
        default = spec["map"][spec["default"]][1]
    enum = user_enum(spec["name"], pairs, default)
    return enum, {v: k for k, v in pairs.items()}, enum.default


class World:
    """The environment and what it should hold."""

    def __init__(self, spec: Any) -> None:
        initial = [build(x) for x in spec["initial"]]
        env = spec["env"]
        self.env = TelemetryEnvironment(
            env["mtu"],
            init_time=env["time"],
            metrics_rate=env["metrics"],
            initial_enums=[x[0] for x in initial],
            app_id_basis=0.5,
            use_crc=env["crc"],
        )
        self.crc = env["crc"]
        self.enums: Dict[str, Any] = {}
        for enum in initial:
            self.enums[enum[0].name] = (
                self.env.enum_registry.get_id(enum[0].name),
                enum[1],
                enum[2],
            )
        # the library's own enumerations
        reg = self.env.enum_registry
        for num in range(reg.count()):
            item = reg.get_item(num)
            if item.name not in self.enums:
                mapping = {x: item.get_value(x) for x in item}
                self.enums[item.name] = (num, mapping, item.default)
        self.chans: Dict[str, Dict[str, Any]] = {}
        self.plain: Dict[str, int] = {}

    def snapshot(self) -> Any:
        """What is registered and held, metrics aside."""
        env = self.env
        result = {}
        for name in ("channel", "enum", "type"):
            result[name] = json.loads(env.registries[name].describe())
        result["values"] = {
            k: (env.get_enum_value(v["id"]), env.get_value(v["id"]))
            for k, v in self.chans.items()
        }
        return result

    def attempt(self, func: Any, *args: Any) -> Any:
        """Call something that may be refused: then nothing may change."""
        before = self.snapshot()
        try:
            result = func(*args)
        except (AssertionError, KeyError):
            result = False
        if result is False:
            same(self.snapshot(), before, "state after a refused operation")
        return result

    def label(self, chan_name: str, name: Any) -> str:
        """The name used by a step."""
        kind, value = name
        if kind == "label":
            return value
        known = list(self.enums[self.chans[chan_name]["enum"]][1])
        return known[value % len(known)]

    def verify(self) -> None:
        """All channels and enumerations are as they should be."""
        env = self.env
        for name, chan_data in self.chans.items():
            ident = chan_data["id"]
            same(env.get_enum_value(ident), chan_data["held"], f"value of {name}")
            same(
                env.get_value(ident),
                self.enums[chan_data["enum"]][1][chan_data["held"]],
                f"integer held by {name}",
            )
            check(env.is_enum_channel(ident), f"{name} isn't an enum channel")
            same(env.channel_registry.get_id(name), ident, f"id of {name}")
        for name, ident in self.plain.items():
            check(not env.is_enum_channel(ident), f"{name} is an enum channel")
        for name, (ident, mapping, _) in self.enums.items():
            same(env.enum_registry.get_id(name), ident, f"id of enum {name}")
            item = env.enum_registry.get_item(ident)
            same(
                {x: item.get_value(x) for x in item}, mapping, f"enum {name}"
            )
            check(
                env.type_registry.get_id(name) is not None,
                f"enum {name} isn't known as a type",
            )
        same(env.enum_registry.count(), len(self.enums), "number of enums")


def run(case: Any, rec: Rec) -> None:
    """Histories of registering, setting and commanding."""
    world = World(case)
    env = world.env
    refused = changed = 0
    for step in case["steps"]:
        if step[0] == "enum":
            refused += add_enum(world, step[1])
        elif step[0] == "channel":
            refused += add_channel(world, step[1])
        elif step[0] == "plain":
            name = f"chan{step[1]}"
            if name not in world.chans and name not in world.plain:
                world.plain[name] = env.add_channel(name, Primitive.UINT8, 1.0)
        elif step[0] == "dispatch":
            dispatch(world, step[1])
        else:
            result = assign(world, step)
            refused += result is False
            changed += result is True
        world.verify()
    rec.count("refused", refused)
    rec.count("assigned", changed)
    rec.nontrivial(refused and changed and len(world.chans) > 1)


def add_enum(world: World, spec: Any) -> bool:
    """Register an enumeration."""
    enum, mapping, default = build(spec)
    name = enum.name
    klass = (
        spec["klass"]
        and default == spec["map"][0][1]
        and all(k != v for k, v in spec["map"])
    )

    def call() -> Any:
        if klass:
            made = IntEnum(  # type: ignore
                name.title().replace("_", ""),
                {v.upper(): int(k) for k, v in spec["map"]},
            )
            return world.env.add_from_enum(made)
        return world.env.add_enum(enum)

    got = world.attempt(call)
    if name in world.enums:
        if got is not False:
            same(got, world.enums[name][0], f"id of the known enum {name}")
        return True
    if name in TAKEN:
        check(got is False, f"an enum called {name} was registered")
        return True
    check(got is not False, f"the enum {name} was refused")
    same(got, len(world.enums), f"id of the enum {name}")
    check(world.env.has_enum(enum), f"enum {name} isn't known")
    world.enums[name] = (got, mapping, default)
    return False


def add_channel(world: World, spec: Any) -> bool:
    """Register an enum channel."""
    env = world.env
    name = f"chan{spec['name']}"
    if isinstance(spec["enum"], int):
        options = sorted(world.enums)
        spec = dict(spec, enum=options[spec["enum"] % len(options)])
    known = spec["enum"] in world.enums
    label: Optional[str] = None
    if spec["initial"] is not None:
        kind, value = spec["initial"]
        label = value
        if kind == "known":
            options = list(world.enums[spec["enum"]][1]) if known else ["x"]
            label = options[value % len(options)]
    held = None
    if known:
        _, mapping, default = world.enums[spec["enum"]]
        held = default if label is None else label.lower()
        if held not in mapping or not 0 <= mapping[held] <= 255:
            held = None
    initial = None if label is None else (label, 1.5)
    taken = name in world.chans or name in world.plain
    metric = spec["metric"] and env.metrics is not None

    def call() -> Any:
        if metric:
            env.add_enum_metric(
                name,
                spec["enum"],
                **envs.options(track_change=spec["track"], initial=initial),
            )
            return env.channel_registry.get_id(name)
        return env.add_enum_channel(
            name,
            spec["enum"],
            1.0,
            **envs.options(
                track_change=spec["track"],
                initial=initial,
                commandable=spec["commandable"],
            ),
        )

    if metric and env.has_metric(name):
        same(call(), world.chans[name]["id"], "identifier of a known metric")
        return True
    got = world.attempt(call)
    good = held is not None and not taken
    check(
        (got is not False) == good,
        f"adding {name} of {spec['enum']} as {label!r} gave {got}",
    )
    if not good:
        return True
    world.chans[name] = {
        "id": got,
        "enum": spec["enum"],
        "held": held,
        "commandable": spec["commandable"] and not metric,
        "metric": metric,
    }
    return False


def assign(world: World, step: Any) -> Optional[bool]:
    """Set or command a channel."""
    env = world.env
    kind, num, label, upper = step
    name = f"chan{num}"
    if world.chans and num < 6:
        name = sorted(world.chans)[num % len(world.chans)]
    if name not in world.chans:
        if kind == "name":
            got = world.attempt(env.command_enum_channel, name, "run")
            check(got is False, f"command to {name} succeeded")
            return False
        return None
    chan_data = world.chans[name]
    text = world.label(name, label)
    text = text.upper() if upper else text
    mapping = world.enums[chan_data["enum"]][1]
    good = text.lower() in mapping and 0 <= mapping[text.lower()] <= 255
    if kind == "metric":
        if not chan_data["metric"]:
            return None
        got = world.attempt(env.set_enum_metric, name, text, 2.0)
        got = got is not False
    elif kind == "set":
        got = world.attempt(env.set_enum_now, chan_data["id"], text)
    else:
        good = good and chan_data["commandable"]
        if kind == "id":
            got = world.attempt(
                env.command_enum_channel_id, chan_data["id"], text
            )
        else:
            got = world.attempt(env.command_enum_channel, name, text)
    same(got, good, f"{kind} of {name} ({chan_data['enum']}) to {text!r}")
    if good:
        chan_data["held"] = text.lower()
        if chan_data["metric"]:
            same(env.get_enum_metric(name), text.lower(), f"metric {name}")
    return good


def dispatch(world: World, time: float) -> None:
    """The values are sent as the enumeration maps them."""
    world.env.advance_time(time)
    world.env.dispatch_now(should_log=False)
    types = envs.channel_types(world.env)
    got: Dict[int, List[Any]] = {}
    for data in envs.drain(world.env):
        frame = envs.parse(data, types, world.crc)
        if frame["type"] == ref.EVENT:
            for elem in frame["elems"]:
                owner = [x for x in world.chans.values() if x["id"] == elem[0]]
                if owner:
                    held = world.enums[owner[0]["enum"]][1].values()
                    check(
                        elem[3][0] in held,
                        f"an event reports {elem[3][0]}, not a value of the "
                        f"enumeration",
                    )
        if frame["type"] == ref.DATA:
            for ident, value in frame["elems"]:
                got.setdefault(ident, []).append(value)
    for name, chan_data in world.chans.items():
        if chan_data["id"] in got:
            value = world.enums[chan_data["enum"]][1][chan_data["held"]]
            same(
                got[chan_data["id"]], [ref.pack("UINT8", value)], f"{name} sent"
            )


PROP = Prop(
    "C12",
    [
        Facet(
            "histories",
            lambda: cases,
            run,
            1200,
            rule="histories of registering and assigning; non-trivial = "
            "refusals, assignments and several enum channels",
        )
    ],
    more=4,
    assumptions=[
        "enum channels are assigned by name (raw integers bypass the "
        "enumeration on purpose)",
        "names within an enumeration are unique",
    ],
)
