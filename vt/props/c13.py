"""C13: channel groups read and write their channels together."""

from __future__ import annotations

import json
import threading
from typing import Any, Dict, List, Optional

from hypothesis import strategies as st
from vtelem.channel.group import ChannelGroup
from vtelem.channel.group_registry import ChannelGroupRegistry
from vtelem.classes.user_enum import user_enum
from vtelem.enums.primitive import Primitive
from vtelem.telemetry.environment import TelemetryEnvironment

from vt import envs, gen, model, ref, sched
from vt.core import Facet, Prop, Rec, check, same

LABELS = ["low", "mid", "high"]
MAPS = {"level": {3: "low", 7: "mid", 200: "high"}, "plain": {0: "low", 1: "high"}}

chan_kind = gen.weighted((4, gen.prims), (1, st.sampled_from(["@level", "@plain"])))
new_chan = st.fixed_dictionaries(
    {
        "name": st.integers(0, 9),
        "kind": gen.weighted((8, chan_kind), (1, st.just("@nothing"))),
        "rate": gen.rates,
        "track": st.booleans(),
    }
)


def value_for(kind: str) -> Any:
    """A value a channel takes."""
    if kind == "@level":
        return st.sampled_from(LABELS + ["HIGH"])
    if kind == "@plain":
        return st.sampled_from(["low", "high", "Low"])
    return gen.value_of(kind)


# values for whatever kind of channel the history leads to
value_set = st.fixed_dictionaries(
    {x: value_for(x) for x in gen.PRIMS + ["@level", "@plain"]}
)
histories = st.fixed_dictionaries(
    {
        "env": envs.specs,
        "via": st.booleans(),
        "names": st.sampled_from([["one", "two"], ["a", "a.b"], ["x", "y"]]),
        "steps": st.lists(
            gen.weighted(
                (4, st.tuples(st.just("add"), st.integers(0, 1), new_chan)),
                (1, st.tuples(st.just("dup"), st.integers(0, 1))),
                (
                    5,
                    st.tuples(
                        st.just("update"),
                        st.integers(0, 1),
                        st.lists(
                            st.tuples(st.integers(0, 5), value_set),
                            max_size=4,
                        ),
                        st.sampled_from(
                            ["fine", "fine", "fine", "unknown", "enum"]
                        ),
                        st.integers(0, 3),
                    ),
                ),
                (2, st.tuples(st.just("read"), st.integers(0, 1))),
                (
                    2,
                    st.tuples(
                        st.just("outside"),
                        st.integers(0, 1),
                        st.integers(0, 5),
                        value_set,
                    ),
                ),
                (1, st.tuples(st.just("dispatch"), st.integers(1, 30))),
            ),
            min_size=12,
            max_size=40,
        ),
    }
)


class Groups:
    """Two groups in an environment, and what they should hold."""

    def __init__(self, spec: Any, names: List[str], via: bool) -> None:
        self.env = envs.make_env(spec)
        for name, values in MAPS.items():
            self.env.add_enum(user_enum(name, values))
        self.names = names
        self.via = via
        self.held: List[Dict[str, Any]] = [{}, {}]
        self.kinds: List[Dict[str, str]] = [{}, {}]
        self.ids: List[Dict[str, int]] = [{}, {}]
        if via:
            self.reg = ChannelGroupRegistry(self.env)
            self.groups = [
                self.reg.get_item(self.reg.create_group(x)) for x in names
            ]
        else:
            self.groups = [ChannelGroup(x, self.env) for x in names]

    def data(self, which: int) -> Any:
        """Enter a group."""
        if self.via:
            return self.reg.group(which)
        return self.groups[which].data()

    def verify(self, what: str) -> None:
        """Everything holds what it should."""
        for which, held in enumerate(self.held):
            got = self.groups[which].read()
            same(set(got), set(held), f"channels of group {which} {what}")
            for name, value in held.items():
                check(
                    model.alike(got[name], value),
                    f"{name} of group {which} {what} reads {got[name]!r}, "
                    f"expected {value!r}",
                )
                ident = self.ids[which][name]
                real = (
                    self.env.get_enum_value(ident)
                    if self.kinds[which][name][0] == "@"
                    else self.env.get_value(ident)
                )
                check(
                    model.alike(real, value),
                    f"channel {name} {what} holds {real!r}, not {value!r}",
                )


def run_history(case: Any, rec: Rec) -> None:
    """Histories of one thread."""
    world = Groups(case["env"], case["names"], case["via"])
    env = world.env
    updates = refused = 0
    for step in case["steps"]:
        act = step[0]
        if act == "add":
            refused += not add(world, step[1], step[2])
        elif act == "dup" and world.via:
            refused += 1
            before = (world.reg.describe(), world.reg.count())
            try:
                world.reg.create_group(world.names[step[1]])
                check(False, "a group was created twice")
            except AssertionError:
                pass
            same(
                (world.reg.describe(), world.reg.count()),
                before,
                "registry after a refused group",
            )
        elif act == "update":
            updates += update(world, step)
        elif act == "outside":
            names = sorted(world.held[step[1]])
            if names:
                name = names[step[2] % len(names)]
                kind = world.kinds[step[1]][name]
                value = step[3][kind]
                ident = world.ids[step[1]][name]
                if kind[0] == "@":
                    env.command_enum_channel_id(ident, value)
                    world.held[step[1]][name] = value.lower()
                else:
                    env.command_channel_id(ident, value)
                    world.held[step[1]][name] = model.stored(kind, value)
        elif act == "dispatch":
            env.advance_time(step[1])
            env.dispatch_now(should_log=False)
            sent(world, case["env"]["crc"])
        world.verify(f"after {act}")
    rec.count("updates", updates)
    rec.count("refused", refused)
    rec.nontrivial(updates > 1 and all(world.held))


def add(world: Groups, which: int, spec: Any) -> bool:
    """Add a channel to a group."""
    env = world.env
    name = f"chan{spec['name']}"
    if world.names[0] + "." == world.names[1][: len(world.names[0]) + 1]:
        # the names of both groups' channels can collide
        name = ["b.", ""][which] + name
    full = f"{world.names[which]}.{name}"
    kind = spec["kind"]
    good = not env.has_channel(full) and kind != "@nothing"
    count = env.channel_registry.count()
    before = env.registries["channel"].describe()
    track = envs.options(track_change=spec["track"])
    if kind[0] == "@":
        args = (name, kind[1:], spec["rate"])
        if world.via:
            world.reg.add_enum_channel(which, *args, **track)
            got = env.channel_registry.count() == count + 1
        else:
            got = world.groups[which].add_enum_channel(*args, **track)
    else:
        args = (name, Primitive[kind], spec["rate"])
        if world.via:
            world.reg.add_channel(which, *args, **track)
            got = env.channel_registry.count() == count + 1
        else:
            got = world.groups[which].add_channel(*args, **track)
    same(got, good, f"adding {full}")
    if not good:
        same(
            env.registries["channel"].describe(),
            before,
            "channels after a refused one",
        )
        return False
    ident = env.channel_registry.get_id(full)
    check(ident is not None, f"no channel {full} after adding it")
    same(
        env.channel_registry.get_item(ident).type.name,
        "UINT8" if kind[0] == "@" else kind,
        "type of the new channel",
    )
    same(env.channel_registry.get_item(ident).rate, spec["rate"], "its rate")
    world.ids[which][name] = ident
    world.kinds[which][name] = kind
    if kind[0] == "@":
        world.held[which][name] = "low"
    else:
        world.held[which][name] = model.default(kind)
    return True


def update(world: Groups, step: Any) -> bool:
    """Enter a group, assign and leave."""
    _, which, items, how, steps = step
    names = sorted(world.held[which])
    expected = dict(world.held[which])
    enums = [x for x in names if world.kinds[which][x][0] == "@"]
    bad: Optional[str] = None
    try:
        with world.data(which) as data:
            same(set(data), set(names), "channels seen in a group update")
            for name in names:
                check(
                    model.alike(data[name], world.held[which][name]),
                    f"a group update sees {name} as {data[name]!r}, it is "
                    f"{world.held[which][name]!r}",
                )
            if steps == 1:
                world.env.advance_time(1.0)
            for num, values in items:
                if not names:
                    break
                name = names[num % len(names)]
                kind = world.kinds[which][name]
                data[name] = values[kind]
                expected[name] = (
                    values[kind].lower()
                    if kind[0] == "@"
                    else model.stored(kind, values[kind])
                )
            # the environment doesn't see anything yet
            for name in names:
                ident = world.ids[which][name]
                if world.kinds[which][name][0] != "@":
                    check(
                        model.alike(
                            world.env.get_value(ident), world.held[which][name]
                        ),
                        f"{name} was written before the update ended",
                    )
            if how == "unknown":
                data["nothing"] = 1
                bad = "an unknown channel"
            elif how == "enum" and enums:
                data[enums[-1]] = "no such value"
                bad = "an unknown enum value"
    except (AssertionError, KeyError):
        check(bad is not None, "a valid group update failed")
        return False
    check(bad is None, f"a group update wrote {bad}")
    world.held[which] = expected
    return bool(items and names)


def sent(world: Groups, crc: bool) -> None:
    """A dispatch sends the values the group wrote."""
    types = envs.channel_types(world.env)
    got: Dict[int, Any] = {}
    for data in envs.drain(world.env):
        frame = envs.parse(data, types, crc)
        if frame["type"] == ref.DATA:
            got.update(dict(frame["elems"]))
    for which in range(2):
        for name, value in world.held[which].items():
            ident = world.ids[which][name]
            if ident not in got:
                continue
            kind = world.kinds[which][name]
            if kind[0] == "@":
                code = {v: k for k, v in MAPS[kind[1:]].items()}[value]
                want = ref.pack("UINT8", code)
            else:
                want = ref.pack(kind, value)
            same(got[ident], want, f"value sent for {name}")


# -- preemption ---------------------------------------------------------------

layouts = st.fixed_dictionaries(
    {
        "kinds": st.lists(
            st.sampled_from(["UINT8", "INT32", "DOUBLE", "BOOLEAN", "@level"]),
            min_size=2,
            max_size=4,
        ),
        "track": st.booleans(),
        "other": st.sampled_from(
            ["read", "dispatch", "update", "update", "enter", "add", "describe"]
        ),
        "swap": st.booleans(),
        "fine": st.sampled_from([False, False, False, True]),
        "mtu": st.sampled_from([60, 200]),
        "picks": st.lists(st.floats(0, 0.999), min_size=12, max_size=12),
    }
)


def nth(kind: str, num: int) -> Any:
    """The nth value, all are different where possible."""
    if kind == "BOOLEAN":
        return bool(num % 2)
    if kind == "@level":
        return LABELS[num % 3]
    return float(num) if kind == "DOUBLE" else num


class Pair:
    """One group, whose channels always hold values of one update."""

    def __init__(self, case: Any) -> None:
        self.case = case
        self.env = TelemetryEnvironment(case["mtu"], app_id_basis=0.5)
        self.env.add_enum(user_enum("level", MAPS["level"]))
        self.reg = ChannelGroupRegistry(self.env)
        self.reg.create_group("group")
        for num, kind in enumerate(case["kinds"]):
            self.put(f"c{num}", kind)
        self.reg.get_item(0).write(self.values(0))
        self.env.event_queue.consume()
        self.env.set_time(5.0)

    def put(self, name: str, kind: str) -> None:
        """Add a channel."""
        if kind[0] == "@":
            self.reg.add_enum_channel(0, name, "level", 0.0, self.case["track"])
        else:
            self.reg.add_channel(0, name, Primitive[kind], 0.0, self.case["track"])

    def values(self, num: int) -> Dict[str, Any]:
        """The nth update."""
        return {
            f"c{x}": nth(kind, num) for x, kind in enumerate(self.case["kinds"])
        }

    def frames(self) -> Any:
        """What was dispatched."""
        types = envs.channel_types(self.env)
        out = []
        for data in envs.drain(self.env):
            frame = envs.parse(data, types, True)
            out.append((frame["type"], [tuple(x) for x in frame["elems"]]))
        return out


def partial(pair: Pair, values: Dict[str, Any], what: str) -> None:
    """The values belong to one update."""
    options = [pair.values(x) for x in range(3)]
    got = {k: v for k, v in values.items() if k in options[0]}
    check(
        any(got == x for x in options),
        f"{what} sees a partial update: {got}",
        "partial",
    )


def updating(pair: Pair, num: int) -> None:
    """Write all channels of the group."""
    pair.reg.get_item(0).write(pair.values(num))


def dispatching(pair: Pair) -> None:
    """All channels are due, all their values are of one update."""
    pair.env.dispatch_data(9.0)


def emitted(pair: Pair) -> None:
    """The frames don't hold a partial update."""
    got: Dict[int, Any] = {}
    for kind, elems in pair.frames():
        if kind == ref.DATA:
            got.update(dict(elems))
    values: Dict[str, Any] = {}
    for num, kind in enumerate(pair.case["kinds"]):
        ident = pair.env.channel_registry.get_id(f"group.c{num}")
        if ident not in got:
            continue
        if kind == "@level":
            values[f"c{num}"] = MAPS["level"][got[ident][0]]
        else:
            values[f"c{num}"] = [
                nth(kind, x)
                for x in range(3)
                if ref.pack(kind, nth(kind, x)) == got[ident]
            ][0]
    if values:
        partial(pair, values, "a dispatch")


def second(case: Any) -> Any:
    """The operation that runs against a group update."""

    def read(pair: Pair) -> Any:
        values = pair.reg.get_item(0).read()
        partial(pair, values, "a read")
        return values

    def enter(pair: Pair) -> Any:
        with pair.reg.group(0) as data:
            partial(pair, data, "a group update")
            # leave the values alone
            seen = dict(data)
            data.clear()
        return seen

    def dispatch(pair: Pair) -> None:
        dispatching(pair)

    def update_two(pair: Pair) -> None:
        updating(pair, 2)

    def add_one(pair: Pair) -> None:
        pair.put("extra", "UINT8")

    def describe(pair: Pair) -> Any:
        return json.loads(pair.reg.describe())

    return {
        "read": read,
        "enter": enter,
        "dispatch": dispatch,
        "update": update_two,
        "add": add_one,
        "describe": describe,
    }[case["other"]]


def run_race(case: Any, rec: Rec) -> None:
    """A group update interrupted, or interrupting, at every line."""

    def look(pair: Pair) -> Any:
        emitted(pair)
        values = pair.reg.get_item(0).read()
        partial(pair, values, "a read afterwards")
        pair.env.dispatch(20.0, False)
        return values, pair.frames()

    def first(pair: Pair) -> None:
        updating(pair, 1)

    one, two = [first], [second(case)]
    if case["swap"]:
        one, two = two, one
    amount = sched.explore(
        lambda: Pair(case),
        one,
        two,
        look,
        case["picks"],
        case["fine"],
        40,
        rec,
        f"group update against {case['other']}",
    )
    rec.label(case["other"])
    rec.nontrivial(amount > 5)


# -- free running threads -----------------------------------------------------

crowds = st.fixed_dictionaries(
    {
        "kinds": layouts.map(lambda x: x["kinds"]),
        "track": st.just(False),
        "mtu": st.sampled_from([60, 200]),
        "writers": st.integers(1, 3),
        "rounds": st.integers(20, 60),
    }
)


def run_crowd(case: Any, rec: Rec) -> None:
    """Writers and readers run freely, no reader sees a partial update."""
    import sys

    pair = Pair(case)
    failed: List[BaseException] = []

    def guard(func: Any) -> Any:
        """Keep what went wrong."""

        def wrapped() -> None:
            try:
                func()
            except BaseException as exc:  # pylint: disable=broad-except
                failed.append(exc)

        return wrapped

    def write() -> None:
        for num in range(case["rounds"]):
            updating(pair, num % 3)

    def read() -> None:
        for _ in range(case["rounds"]):
            partial(pair, pair.reg.get_item(0).read(), "a read")

    def dispatch() -> None:
        for num in range(min(case["rounds"], 30)):
            pair.env.dispatch(10.0 + num, False)
            emitted(pair)

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        threads = [
            threading.Thread(target=guard(x), daemon=True)
            for x in [write] * case["writers"] + [read, dispatch]
        ]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join(30)
            check(not thread.is_alive(), "a thread is stuck", "stuck")
    finally:
        sys.setswitchinterval(interval)
    if failed:
        raise failed[0]
    rec.nontrivial(True)


PROP = Prop(
    "C13",
    [
        Facet(
            "history",
            lambda: histories,
            run_history,
            1000,
            rule="histories of two groups; non-trivial = several updates, "
            "channels in both groups",
        ),
        Facet(
            "preempted",
            lambda: layouts,
            run_race,
            250,
            rule="group updates interrupted by or interrupting another "
            "operation at every line; non-trivial = more than five points",
        ),
        Facet(
            "crowd",
            lambda: crowds,
            run_crowd,
            40,
            thorough=600,
            rule="free running writers, readers and dispatches",
        ),
    ],
    more=2,
    assumptions=[
        "values assigned to numeric channels are of their type",
        "one preemption per schedule in the preempted facet",
    ],
)
