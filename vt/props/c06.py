"""C06: every change of a tracked channel is reported exactly once, in order."""

from __future__ import annotations

import sys
import threading
from typing import Any, Dict, List, Tuple

from hypothesis import strategies as st
from vtelem.channel import Channel
from vtelem.channel.group_registry import ChannelGroupRegistry
from vtelem.classes.event_queue import EventQueue
from vtelem.classes.type_primitive import TypePrimitive
from vtelem.classes.user_enum import user_enum
from vtelem.enums.primitive import Primitive

from vt import envs, gen, model
from vt.core import Facet, Prop, Rec, check, same

KINDS = ["set", "set", "now", "add", "command", "increment", "by-name", "by-id"]


@st.composite
def cases(draw: Any) -> Any:
    """Histories in which assignments dominate."""
    return {
        "env": draw(envs.specs),
        "steps": draw(
            model.histories(
                {"assign": 14, "dispatch": 4, "add": 1, "time": 2},
                KINDS,
                wrong=2,
                wrongs=model.NUMBERS,
                hows=("plain", "plain", "now", "advance", "events", "data"),
                max_chans=8,
                max_steps=60,
                track=st.sampled_from([True, True, True, False]),
            )
        ),
    }


def run(case: Any, rec: Rec) -> None:
    """The events are those of the model."""
    driver = model.run(case, {"events"})
    stats = driver.stats
    refused = sum(v for k, v in stats.items() if k.startswith("refuse-"))
    rec.label("refusals" if refused else "all-accepted")
    rec.label("metrics" if case["env"]["metrics"] else "no-metrics")
    rec.count("events", stats.get("events", 0))
    if stats.get("unchanged"):
        rec.label("repeated-values")
    rec.nontrivial(stats.get("events", 0) >= 4)


# -- many events, small frames ------------------------------------------------

bursts = st.fixed_dictionaries(
    {
        "env": envs.specs,
        "prims": st.lists(gen.prims, min_size=1, max_size=5),
        "burst": st.lists(st.integers(1, 250), min_size=1, max_size=3),
        "stride": st.integers(1, 7),
    }
)


def run_burst(case: Any, rec: Rec) -> None:
    """As many events as the queue has room for, over many frames."""
    env = envs.make_env({**case["env"], "metrics": None})
    driver = model.Driver(env, {"events"}, case["env"])
    for num, prim in enumerate(case["prims"]):
        driver.add(
            {
                "name": f"c{num}",
                "prim": prim,
                "rate": 1000.0,
                "track": True,
                "init": None,
                "commandable": True,
            }
        )
    serial = 0
    for num, amount in enumerate(case["burst"]):
        for _ in range(amount):
            serial += 1
            at = (serial * case["stride"]) % len(case["prims"])
            prim = case["prims"][at]
            chan = driver.model.chans[at]
            value = (
                not chan.value
                if prim == "BOOLEAN"
                else model.stored(prim, serial % 127)
            )
            driver.assign(
                {
                    "chan": at,
                    "kind": "set",
                    "value": value,
                    "time": serial / 8.0,
                }
            )
        driver.dispatch({"do": "dispatch", "time": float(num), "how": "plain"})
    driver.dispatch({"do": "dispatch", "time": 99.0, "how": "plain"})
    rec.label(f"burst>={max(case['burst']) // 50 * 50}")
    rec.nontrivial(max(case["burst"]) > 20)


# -- a change callback --------------------------------------------------------

callbacks = gen.prims.flatmap(
    lambda prim: st.fixed_dictionaries(
        {
            "prim": st.just(prim),
            "sets": st.lists(
                st.tuples(
                    st.booleans(),
                    st.one_of(
                        gen.value_of(prim), gen.value_of(prim), model.NUMBERS
                    ),
                    st.one_of(st.none(), gen.exact_times()),
                ),
                min_size=1,
                max_size=25,
            ),
            "queue": st.booleans(),
        }
    )
)


def run_callback(case: Any, rec: Rec) -> None:
    """A change-tracked primitive reports previous and current pairs."""
    prim = case["prim"]
    seen: List[Any] = []
    queue = EventQueue()
    if case["queue"]:
        elem: Any = Channel("chan", Primitive[prim], 1.0, queue)
    else:
        elem = TypePrimitive(
            Primitive[prim], lambda prev, curr: seen.append((prev, curr))
        )
    want: List[Any] = []
    held, when = model.default(prim), 0.0
    for add, value, time in case["sets"]:
        new = model.plus(held, value) if add else value
        good = model.accepts(prim, new)
        result = elem.add(value, time) if add else elem.set(value, time)
        if result is not good:
            # not what is judged here: follow what it did
            new = elem.get()
            if not result:
                continue
        if not result:
            continue
        new = model.stored(prim, new)
        moment = 0.0 if time is None else time
        if new != held:
            want.append(((held, when), (new, moment)))
        held, when = new, moment
    if case["queue"]:
        got = queue.consume()
        same([x[0] for x in got], ["chan"] * len(got), "names of events")
        seen = [(x[1], x[2]) for x in got]
        same(queue.consume(), [], "events left after consuming")
    same(seen, want, "reported changes")
    rec.label(f"changes>={min(len(want) // 4 * 4, 12)}")
    rec.nontrivial(len(want) > 1 and len(want) < len(case["sets"]))


# -- changes from several threads ---------------------------------------------

racing = st.fixed_dictionaries(
    {
        "env": envs.specs,
        "writers": st.integers(1, 4),
        "amount": st.integers(5, 60),
        "rounds": st.integers(1, 12),
    }
)


def run_racing(case: Any, rec: Rec) -> None:
    """Events of a channel form an unbroken chain, none is lost or repeated."""
    env = envs.make_env({**case["env"], "metrics": None})
    ids = [
        env.add_channel(f"c{x}", Primitive.UINT32, 1000.0, True)
        for x in range(case["writers"])
    ]
    amount = case["amount"]
    go = threading.Event()

    def writer(ident: int) -> None:
        chan = env.channel_registry.get_item(ident)
        go.wait(30)
        for value in range(1, amount + 1):
            chan.set(value, float(value))
            chan.set(value, float(value))

    threads = [
        threading.Thread(target=writer, args=(x,), daemon=True) for x in ids
    ]
    for thread in threads:
        thread.start()
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    chains: Dict[int, List[Tuple[int, int]]] = {x: [] for x in ids}
    types = envs.channel_types(env)
    try:
        go.set()
        num = 0
        while any(x.is_alive() for x in threads) or num < case["rounds"]:
            num += 1
            env.dispatch(0.0)
            collect(env, types, case["env"]["crc"], chains)
        for thread in threads:
            thread.join(30)
        env.dispatch(0.0)
        collect(env, types, case["env"]["crc"], chains)
    finally:
        sys.setswitchinterval(old)
    for ident in ids:
        want = [(x - 1, x) for x in range(1, amount + 1)]
        same(chains[ident], want, f"events of channel {ident}")
    rec.nontrivial(case["writers"] > 1)


def collect(env: Any, types: Any, crc: bool, chains: Any) -> None:
    """Sort the events of a dispatch by channel."""
    for raw in envs.drain(env):
        frame = envs.parse(raw, types, crc)
        if frame["type"] != 2:
            continue
        for ident, prev, ptime, curr, ctime in frame["elems"]:
            one, two = int.from_bytes(prev, "big"), int.from_bytes(curr, "big")
            chains[ident].append((one, two))
            check(
                (ptime, ctime) == (one * 1000, two * 1000),
                f"event {one}->{two} with times {ptime}, {ctime}",
            )


# -- channels of every kind ---------------------------------------------------

LABELS = ["a", "b", "c", "d"]
WAYS = ["plain", "enum", "group", "group-enum", "metric", "enum-metric"]
kinds = st.fixed_dictionaries(
    {
        "env": envs.specs,
        "chans": st.lists(
            st.tuples(
                st.sampled_from(WAYS),
                st.sampled_from([None, False, True, True]),
                st.booleans(),
                st.sampled_from([None, None, 0, 2]),
            ),
            min_size=1,
            max_size=6,
        ),
        "default": st.integers(0, 3),
        "steps": st.lists(
            st.one_of(
                st.tuples(
                    st.just("set"), st.integers(0, 5), st.integers(0, 3)
                ),
                st.tuples(
                    st.just("set"), st.integers(0, 5), st.integers(0, 3)
                ),
                st.tuples(
                    st.just("group"),
                    st.dictionaries(
                        st.integers(0, 5), st.integers(0, 3), max_size=4
                    ),
                ),
                st.tuples(st.just("time"), st.integers(1, 40)),
                st.tuples(st.just("dispatch")),
            ),
            min_size=1,
            max_size=25,
        ),
    }
)


class Mixed:
    """An environment with channels of every kind."""

    def __init__(self, case: Any) -> None:
        self.now = 3.0
        self.env = envs.make_env({**case["env"], "time": self.now})
        self.crc = case["env"]["crc"]
        self.env.add_enum(
            user_enum(
                "letters", dict(enumerate(LABELS)), LABELS[case["default"]]
            )
        )
        self.groups = ChannelGroupRegistry(self.env)
        self.group = self.groups.create_group("g")
        self.model = model.Model()
        self.chans: List[Any] = []
        self.members: Dict[int, str] = {}
        for num, chan in enumerate(case["chans"]):
            self.add(f"c{num}", chan, case["default"])

    def add(self, name: str, chan: Any, default: int) -> None:
        """A channel of one of the kinds, most arguments may be left out."""
        way, track, via, initial = chan
        env = self.env
        kwargs: Dict[str, Any] = {} if track is None else {"track_change": track}
        when = 1.5
        if "group" in way:
            target: Any = self.groups if via else self.groups.get_item(self.group)
            first: Any = (self.group, name) if via else (name,)
            if way == "group":
                target.add_channel(*first, Primitive.UINT8, 0.0, **kwargs)
                initial = 0
            else:
                target.add_enum_channel(*first, "letters", 0.0, **kwargs)
                initial = default
            when = self.now
            name = f"g.{name}"
        elif initial is not None:
            label = LABELS[initial] if "enum" in way else initial
            kwargs["initial"] = (label, when)
        if way == "plain":
            env.add_channel(name, Primitive.UINT8, 0.0, **kwargs)
        elif way == "enum":
            env.add_enum_channel(name, "letters", 0.0, **kwargs)
        elif way == "metric":
            env.add_metric(name, Primitive.UINT8, **kwargs)
        elif way == "enum-metric":
            env.add_enum_metric(name, "letters", **kwargs)
        if "metric" in way and env.metrics is None:
            return
        ident = env.channel_registry.get_id(name)
        spec = {"name": name, "prim": "UINT8", "rate": 0.0, "track": bool(track)}
        added = model.Chan(ident, spec)
        if initial is not None:
            self.model.assign(added, initial, when)
        elif "enum" in way:
            self.model.assign(added, default, None)
        if "group" in way:
            self.members[len(self.chans)] = name[2:]
        self.chans.append((way, via, added))

    def put(self, which: int, value: int) -> None:
        """Assign to one channel."""
        way, via, chan = self.chans[which]
        env = self.env
        when = self.now
        if way == "enum-metric":
            env.set_enum_metric(chan.name, LABELS[value], when)
        elif way == "metric":
            env.set_metric(chan.name, value, when)
        elif "group" in way:
            self.update({which: value})
            return
        elif way == "enum" and via:
            same(
                env.command_enum_channel_id(chan.ident, LABELS[value]),
                True,
                "result of a command",
            )
        elif way == "enum":
            env.set_enum_now(chan.ident, LABELS[value])
        else:
            env.set_now(chan.ident, value)
        self.model.assign(chan, value, when)

    def update(self, values: Dict[int, int]) -> None:
        """Assign to members of the group."""
        with self.groups.group(self.group) as data:
            for which, value in values.items():
                data[self.members[which]] = (
                    LABELS[value]
                    if "enum" in self.chans[which][0]
                    else value
                )
        for which in self.members:
            chan = self.chans[which][2]
            self.model.assign(chan, values.get(which, chan.value), self.now)

    def dispatch(self) -> int:
        """What is reported are the changes of those that are tracked."""
        self.env.dispatch_now(should_log=False)
        got: List[Any] = []
        mine = {x[2].ident for x in self.chans}
        types = envs.channel_types(self.env)
        for raw in envs.drain(self.env):
            frame = envs.parse(raw, types, self.crc)
            if frame["type"] == 2:
                # the metrics of an environment are its own
                got += [x for x in frame["elems"] if x[0] in mine]
        want = self.model.consume()
        same([tuple(x) for x in got], want, "reported changes")
        return len(want)


def run_kinds(case: Any, rec: Rec) -> None:
    """Only a channel that is tracked has its changes reported, all of them."""
    world = Mixed(case)
    total = world.dispatch()
    for step in case["steps"]:
        if step[0] == "set" and world.chans:
            world.put(step[1] % len(world.chans), step[2])
        elif step[0] == "group":
            world.update(
                {int(k): v for k, v in step[1].items() if int(k) in world.members}
            )
        elif step[0] == "time":
            world.env.advance_time(step[1] / 8.0)
            world.now += step[1] / 8.0
        elif step[0] == "dispatch":
            total += world.dispatch()
    total += world.dispatch()
    tracked = {x[2].track for x in world.chans}
    rec.label(*{x[0] for x in world.chans})
    rec.nontrivial(total and len(tracked) > 1)


PROP = Prop(
    "C06",
    [
        Facet(
            "histories",
            lambda: cases(),
            run,
            1000,
            rule="random histories of assignments of all kinds; non-trivial = "
            "at least four events",
        ),
        Facet(
            "burst",
            lambda: bursts,
            run_burst,
            200,
            rule="up to 250 events in one dispatch; non-trivial = more than 20",
        ),
        Facet(
            "callback",
            lambda: callbacks,
            run_callback,
            800,
            rule="assignments to one primitive with a change callback; "
            "non-trivial = some of them changes, some not",
        ),
        Facet(
            "racing",
            lambda: racing,
            run_racing,
            60,
            rule="writer threads against a dispatching one; non-trivial = "
            "several writers",
        ),
        Facet(
            "kinds",
            lambda: kinds,
            run_kinds,
            800,
            rule="channels, metrics and members of groups, numbers and "
            "enumerations; non-trivial = some tracked and changed, some not "
            "tracked",
        ),
    ],
    more=2,
    assumptions=[
        "at most 256 events are waiting at any time (the queue's capacity)",
        "each channel has one writer",
    ],
)
