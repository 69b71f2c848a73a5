"""C10: registries hand out unique stable ids and read purely."""

from __future__ import annotations

import json
from typing import Any, Dict, List

from hypothesis import strategies as st
from vtelem.channel import Channel
from vtelem.channel.group_registry import ChannelGroupRegistry
from vtelem.channel.registry import ChannelRegistry
from vtelem.classes.user_enum import user_enum
from vtelem.enums.primitive import Primitive
from vtelem.registry import Registry
from vtelem.registry.enum import EnumRegistry
from vtelem.registry.service import ServiceRegistry
from vtelem.registry.type import TypeRegistry, get_default
from vtelem.telemetry.environment import TelemetryEnvironment

from vt import envs, gen, ref
from vt.core import Facet, Prop, Rec, check, same, short

KINDS = ["plain", "type", "service", "channel", "enum", "group"]
FIELDS = {
    "plain": "things",
    "type": "types",
    "service": "services",
    "channel": "channels",
    "enum": "enums",
    "group": "channel_groups",
}
# to_snake may change odd enum names, that's not of interest here
pool = st.one_of(
    st.integers(0, 3).map(lambda x: f"name{x}"),
    st.integers(0, 9).map(lambda x: f"name{x}"),
    gen.idents,
    st.sampled_from(["0", "1", "-1", "mappings", "types", "channels", "enums"]),
    gen.names,
)
items = st.fixed_dictionaries(
    {
        "prim": gen.prims,
        "rate": gen.rates,
        "commandable": st.booleans(),
        "port": st.integers(0, 65535),
        "host": gen.idents,
        "hosts": st.integers(0, 3),
        "labels": st.lists(gen.idents, min_size=1, max_size=4, unique=True),
    }
)
ops = st.lists(
    gen.weighted(
        (6, st.tuples(st.just("add"), pool, items)),
        (3, st.tuples(st.just("id"), pool)),
        (
            3,
            st.tuples(
                st.just("item"),
                st.one_of(
                    st.integers(-2, 12), st.sampled_from([2**16, 2**40, None])
                ),
            ),
        ),
        (1, st.tuples(st.just("describe"), st.booleans())),
        (2, st.tuples(st.just("special"), pool, st.integers(-1, 12))),
    ),
    min_size=8,
    max_size=40,
)
cases = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(KINDS),
        "initial": st.lists(st.tuples(pool, items), max_size=4),
        "ops": ops,
    }
)


def name_of(kind: str, name: str) -> str:
    """A name for a kind of registry."""
    if kind == "enum":
        return "".join(x for x in name if x.isascii() and x.isalnum()).lower() or "e"
    return name


def make(kind: str, name: str, spec: Dict[str, Any]) -> Any:
    """An item and what it is described as."""
    prim = spec["prim"]
    if kind == "type":
        low, high = ref.bounds(prim) if ref.is_int(prim) else (0, 0)
        want = {
            "name": prim.lower(),
            "size": ref.size_of(prim),
            "signed": prim in ("FLOAT", "DOUBLE") or low < 0,
            "integer": ref.is_int(prim),
        }
        if ref.is_int(prim):
            want["min"], want["max"] = low, high
        return Primitive[prim], want
    if kind == "service":
        data = [(f"{spec['host']}{x}", spec["port"]) for x in range(spec["hosts"])]
        return data, [list(x) for x in data]
    if kind == "channel":
        chan = Channel(
            name,
            Primitive[prim],
            spec["rate"],
            **envs.options(commandable=spec["commandable"]),
        )
        return chan, {
            "name": name,
            "rate": spec["rate"],
            "commandable": spec["commandable"],
            "type": {
                "name": prim.lower(),
                "signed": prim in ("FLOAT", "DOUBLE")
                or (ref.is_int(prim) and ref.bounds(prim)[0] < 0),
                "size": ref.size_of(prim),
            },
        }
    if kind == "enum":
        values = dict(enumerate(spec["labels"]))
        return user_enum(name, values), {
            "name": name,
            "mappings": {str(k): v for k, v in values.items()},
            "default": spec["labels"][0],
        }
    return {"rate": spec["rate"]}, {"rate": spec["rate"]}


class World:
    """A registry and a dictionary."""

    def __init__(self, kind: str, initial: Any) -> None:
        self.kind = kind
        self.names: List[str] = []
        self.items: List[Any] = []
        self.views: List[Any] = []
        made = []
        for name, spec in initial:
            name = name_of(kind, name)
            item, view = make(kind, name, spec)
            made.append((name, item))
            if name not in self.names:
                self.names.append(name)
                self.items.append(item)
                self.views.append(view)
        if kind == "plain":
            self.reg: Any = Registry("things", made)
        elif kind == "type":
            self.reg = TypeRegistry(made)
        elif kind == "service":
            self.reg = ServiceRegistry(made)
        elif kind == "channel":
            self.reg = ChannelRegistry([x[1] for x in made])
        elif kind == "enum":
            self.reg = EnumRegistry([x[1] for x in made])
        else:
            env = TelemetryEnvironment(256, app_id_basis=0.5)
            self.reg = ChannelGroupRegistry(env)
            self.names, self.items, self.views = [], [], []

    def add(self, name: str, spec: Any) -> bool:
        """Register, returns whether the name was new."""
        name = name_of(self.kind, name)
        fresh = name not in self.names
        item, view = make(self.kind, name, spec)
        if self.kind == "group":
            try:
                got = (True, self.reg.create_group(name))
            except AssertionError:
                got = (False, -1)
            item = self.reg.get_item(got[1]) if got[0] else None
        elif self.kind == "channel":
            got = self.reg.add_channel(item)
        elif self.kind == "enum":
            got = self.reg.add_enum(item)
        else:
            got = self.reg.add(name, item)
        same(got[0], fresh, f"registering {name!r}")
        if fresh:
            same(got[1], len(self.names), f"identifier of {name!r}")
            self.names.append(name)
            self.items.append(item)
            self.views.append(view)
        return fresh

    def special(self, name: str, ident: int) -> None:
        """Lookups of specific kinds."""
        name = name_of(self.kind, name)
        known = name in self.names
        if self.kind == "enum":
            probe = user_enum(name, {0: "x"})
            same(
                self.reg.get_enum(probe),
                (known, self.names.index(name) if known else -1),
                "lookup of an enum",
            )
        elif self.kind == "type":
            want = self.items[ident] if 0 <= ident < len(self.items) else None
            same(self.reg.get_type(ident), want, "lookup of a type")
        elif self.kind == "channel" and 0 <= ident < len(self.items):
            same(
                self.reg.get_channel_type(ident),
                self.items[ident].type,
                "type of a channel",
            )
        elif self.kind == "group" and 0 <= ident < len(self.items):
            self.reg.add_channel(ident, name, Primitive.INT8, 1.0)

    def verify(self, what: str) -> None:
        """Everything is as it should be."""
        same(self.reg.count(), len(self.names), f"count {what}")
        for num, name in enumerate(self.names):
            same(self.reg.get_id(name), num, f"id of {name!r} {what}")
            check(
                self.reg.get_item(num) is self.items[num],
                f"item {num} is another one {what}",
            )

    def describe(self, indented: bool, what: str) -> None:
        """The description is JSON and lists exactly what there is."""
        text = self.reg.describe(indented)
        try:
            data = json.loads(text, parse_constant=lambda x: 1 / 0)
        except (ValueError, ZeroDivisionError) as exc:
            check(False, f"description isn't JSON: {exc}: {short(text)}")
            return
        same(
            data["mappings"],
            {x: num for num, x in enumerate(self.names)},
            f"described names {what}",
        )
        listed = data[FIELDS[self.kind]]
        same(
            sorted(listed, key=int),
            [str(x) for x in range(len(self.names))],
            f"described ids {what}",
        )
        if self.kind == "group":
            return
        for num, view in enumerate(self.views):
            got = listed[str(num)]
            if isinstance(view, dict):
                got = {k: v for k, v in got.items() if k in view}
            same(got, view, f"description of {num} {what}")


def run(case: Any, rec: Rec) -> None:
    """A registry behaves as a dictionary with consecutive ids."""
    world = World(case["kind"], case["initial"])
    world.verify("initially")
    dups = unknown = 0
    for op in case["ops"]:
        act = op[0]
        if act == "add":
            dups += not world.add(op[1], op[2])
        elif act == "id":
            name = name_of(world.kind, op[1])
            known = name in world.names
            unknown += not known
            same(
                world.reg.get_id(name),
                world.names.index(name) if known else None,
                f"id of {name!r}",
            )
        elif act == "item":
            ident = op[1]
            known = ident is not None and 0 <= ident < len(world.items)
            unknown += not known
            got = world.reg.get_item(ident)
            check(
                got is (world.items[ident] if known else None),
                f"item {ident} is {short(got)}",
            )
        elif act == "describe":
            world.describe(op[1], "midway")
        else:
            world.special(op[1], op[2])
        world.verify(f"after {act}")
        # looking up must not register
        world.describe(False, f"after {act} of {short(op[1:])}")
    rec.label(case["kind"])
    if dups:
        rec.label("duplicates")
    if unknown:
        rec.label("unknown-lookups")
    rec.nontrivial(dups and unknown and len(world.names) > 1)


# -- the registries of an environment -----------------------------------------

env_cases = st.fixed_dictionaries(
    {
        "env": envs.specs,
        "ops": st.lists(
            gen.weighted(
                (3, st.tuples(st.just("channel"), st.integers(0, 5))),
                (2, st.tuples(st.just("enum"), st.integers(0, 4))),
                (2, st.tuples(st.just("enum-channel"), st.integers(0, 5))),
                (5, st.tuples(st.just("lookup"), st.integers(0, 9))),
            ),
            min_size=2,
            max_size=25,
        ),
    }
)


def snapshot(env: Any) -> Dict[str, Any]:
    """All descriptions."""
    result = {}
    for name, reg in env.registries.items():
        data = json.loads(reg.describe())
        data.pop("global_mappings", None)
        result[name] = data
    return result


def run_env(case: Any, rec: Rec) -> None:
    """Questions about an environment never change it."""
    env = envs.make_env(case["env"])
    chans: Dict[str, int] = {}
    enums: Dict[str, int] = {}
    enum_chans: Dict[str, int] = {}
    looked = 0
    for act, num in case["ops"]:
        if act == "channel":
            name = f"chan{num}"
            try:
                ident = env.add_channel(name, Primitive.UINT8, 1.0)
                check(name not in chans, f"{name} was registered twice")
                chans[name] = ident
            except AssertionError:
                check(name in chans, f"{name} can't be registered")
        elif act == "enum":
            name = f"enum{num}"
            ident = env.add_enum(user_enum(name, {0: "a", 3: "b"}))
            same(enums.setdefault(name, ident), ident, f"id of {name}")
        elif act == "enum-channel":
            name = f"chan{num}"
            want = name not in chans and "enum0" in enums
            if not want:
                continue
            chans[name] = enum_chans[name] = env.add_enum_channel(
                name, "enum0", 1.0, False, ("b", None)
            )
        else:
            looked += 1
            before = snapshot(env)
            lookup(env, num, chans, enum_chans)
            same(snapshot(env), before, f"descriptions after lookup {num}")
        for name, ident in chans.items():
            same(env.channel_registry.get_id(name), ident, f"id of {name}")
            same(
                env.is_enum_channel(ident), name in enum_chans, f"kind of {name}"
            )
        for name, ident in enums.items():
            same(env.enum_registry.get_id(name), ident, f"id of {name}")
            check(
                env.type_registry.get_id(name) is not None,
                f"{name} isn't a type",
            )
        for name, ident in enum_chans.items():
            same(env.get_enum_value(ident), "b", f"value of {name}")
    types = get_default()
    same(
        env.type_registry.count(),
        types.count() + env.enum_registry.count(),
        "types",
    )
    rec.nontrivial(looked and chans and enums)


def lookup(env: Any, num: int, chans: Any, enum_chans: Any) -> None:
    """Ask for something that isn't there."""
    if num == 0:
        same(env.has_channel("nothing"), False, "unknown channel")
    elif num == 1:
        same(env.command_channel("nothing", 1), False, "unknown channel")
    elif num == 2:
        same(env.command_enum_channel("nothing", "a"), False, "unknown channel")
    elif num == 3:
        same(env.is_enum_channel(60000), False, "unknown channel")
    elif num == 4:
        same(env.has_enum(user_enum("nothing", {1: "x"})), False, "unknown enum")
    elif num == 5:
        same(env.has_metric("nothing"), False, "unknown metric")
        env.set_metric("nothing", 5)
        env.metric_add("nothing", 5)
    elif num == 6:
        env.decode_frame(b"\x80\0\x01" + b"\0" * 10 + b"\x01\xff\xff\0", 17)
    elif num == 7:
        for reg in env.registries.values():
            same(reg.get_item(60000), None, "unknown item")
            same(reg.get_id("nothing"), None, "unknown name")
    elif num == 8 and enum_chans:
        name = sorted(enum_chans)[0]
        same(
            refused(env.command_enum_channel, name, "no such value"),
            True,
            "command with an unknown value",
        )
    elif num == 9 and chans:
        name = sorted(set(chans) - set(enum_chans) or [""])[0]
        if name:
            same(
                refused(env.command_enum_channel, name, "a"),
                True,
                "enum command for another channel",
            )


def refused(func: Any, *args: Any) -> bool:
    """Whether an operation was refused."""
    try:
        return func(*args) is False
    except (AssertionError, KeyError):
        return True


PROP = Prop(
    "C10",
    [
        Facet(
            "registries",
            lambda: cases,
            run,
            1500,
            rule="histories over every kind of registry; non-trivial = "
            "duplicates, unknown lookups and several names",
        ),
        Facet(
            "environment",
            lambda: env_cases,
            run_env,
            400,
            rule="lookups between registrations in an environment; "
            "non-trivial = lookups with channels and enums registered",
        ),
    ],
    more=2,
    assumptions=["the description of a channel group is only required to exist"],
)
