"""C15: channel commands change exactly the addressed channel as requested."""

from __future__ import annotations

import json
from typing import Any, Dict, List

from hypothesis import strategies as st
from vtelem.classes.user_enum import user_enum
from vtelem.daemon.command_queue import CommandQueueDaemon
from vtelem.enums.primitive import Primitive
from vtelem.factories.telemetry_environment import create_channel_commander
from vtelem.telemetry.environment import TelemetryEnvironment

from vt import envs, gen, model
from vt.core import Facet, Prop, Rec, check, same, short

LETTERS = {2: "low", 5: "mid", 250: "high"}

kinds = gen.weighted((5, gen.prims), (1, st.just("@")))
chans = st.fixed_dictionaries(
    {
        "kind": kinds,
        "commandable": st.sampled_from([True, True, True, False]),
        "track": st.booleans(),
    }
)
amounts = st.one_of(
    st.integers(-3, 3),
    model.NUMBERS,
    st.floats(-100, 100),
)
odd = st.one_of(
    st.none(),
    st.text(max_size=4),
    st.just([]),
    st.just([1]),
    st.just({}),
    st.just({"a": 1}),
    st.sampled_from([10**400, -(10**400), 2**64, 2**63, -1, 1e400, -1e300]),
)
# a value for whatever channel is addressed
valued = st.fixed_dictionaries({x: gen.value_of(x) for x in gen.PRIMS}).map(
    lambda x: dict(x, fit=True)
)
labels = st.sampled_from(["low", "mid", "high", "HIGH", "Mid", "none", "", "5"])
steps = st.fixed_dictionaries(
    {
        "op": gen.weighted(
            (5, st.just("set")),
            (4, st.just("increment")),
            (3, st.just("decrement")),
            (1, st.just("get")),
            (1, st.sampled_from(["", "nothing", "SET", None, 5, [], {}])),
        ),
        "chan": st.integers(0, 5),
        "by": st.sampled_from(["name", "id", "both", "name", "id", "wrong"]),
        "bad": st.sampled_from(
            [
                {"channel_name": "nothing"},
                {"channel_name": ""},
                {"channel_name": None},
                {"channel_name": []},
                {"channel_id": 60000},
                {"channel_id": -1},
                {"channel_id": "0"},
                {"channel_id": None},
                {"channel_id": [0]},
                {"channel_id": {}},
                {"mismatch": 1},
                {"mismatch": 2},
                {"mismatch": 0},
                {"mismatch": -1},
                {"mismatch": None},
                {"mismatch": "0"},
                {},
            ]
        ),
        "value": gen.weighted(
            (6, valued),
            (3, amounts),
            (1, odd),
            (1, labels),
            (1, st.just("@missing")),
        ),
        "label": labels,
        "drop": st.sampled_from([None] * 12 + ["operation"]),
        "time": st.sampled_from([0.0, 0.0, 1.0]),
        "extra": st.booleans(),
    }
)
cases = st.fixed_dictionaries(
    {
        "metrics": st.sampled_from([None, None, 1.0]),
        "chans": st.lists(chans, min_size=1, max_size=4),
        "steps": st.lists(steps, min_size=3, max_size=14),
        "name": st.sampled_from(["channel", "channel", "custom"]),
    }
)


class World:
    """An environment that takes commands, and what it should hold."""

    def __init__(self, case: Any) -> None:
        self.env = TelemetryEnvironment(
            256, metrics_rate=case["metrics"], app_id_basis=0.5, init_time=3.0
        )
        self.env.add_enum(user_enum("letters", LETTERS))
        self.chans: List[Dict[str, Any]] = []
        for num, spec in enumerate(case["chans"]):
            name = f"chan{num}"
            if spec["kind"] == "@":
                ident = self.env.add_enum_channel(
                    name,
                    "letters",
                    1.0,
                    initial=("mid", 1.0),
                    **envs.options(
                        track_change=spec["track"],
                        commandable=spec["commandable"],
                    ),
                )
                held: Any = "mid"
            else:
                ident = self.env.add_channel(
                    name,
                    Primitive[spec["kind"]],
                    1.0,
                    **envs.options(
                        track_change=spec["track"],
                        commandable=spec["commandable"],
                    ),
                )
                held = model.default(spec["kind"])
            self.chans.append(
                {
                    "name": name,
                    "id": ident,
                    "kind": spec["kind"],
                    "held": held,
                    "at": 1.0 if spec["kind"] == "@" else 0.0,
                    "commandable": spec["commandable"],
                }
            )
        self.daemon = CommandQueueDaemon("commands", self.env)
        self.told: List[bool] = []
        create_channel_commander(
            self.env,
            self.daemon,
            lambda good, _: self.told.append(good),
            case["name"],
        )

    def verify(self, what: str) -> None:
        """All channels hold what they should."""
        for chan in self.chans:
            real = self.env.channel_registry.get_item(chan["id"])
            if chan["kind"] == "@":
                got = self.env.get_enum_value(chan["id"])
            else:
                got = self.env.get_value(chan["id"])
            check(
                model.alike(got, chan["held"]),
                f"{chan['name']} ({chan['kind']}) holds {short(got)} {what}, "
                f"expected {short(chan['held'])}",
            )
            same(real.last_set, chan["at"], f"assignment time {what}")


def build(world: World, step: Any) -> Any:
    """A command, the channel it addresses and the value it carries."""
    chan = world.chans[step["chan"] % len(world.chans)]
    data: Dict[str, Any] = {"operation": step["op"]}
    target: Any = chan
    if step["by"] in ("name", "both"):
        data["channel_name"] = chan["name"]
    if step["by"] in ("id", "both"):
        data["channel_id"] = chan["id"]
    if step["by"] == "wrong":
        target = None
        if "mismatch" in step["bad"]:
            data["channel_name"] = chan["name"]
            # an identifier, but another one
            other = step["bad"]["mismatch"]
            if isinstance(other, int):
                wrong = [x for x in range(-1, 6) if x != chan["id"]]
                other = wrong[other]
            data["channel_id"] = other
        else:
            data.update(step["bad"])
    value = step["value"]
    if isinstance(value, dict) and value.get("fit"):
        if chan["kind"] == "@":
            value = step["label"]
        else:
            value = value[chan["kind"]]
    if value != "@missing":
        data["value"] = value
    if step["drop"]:
        del data[step["drop"]]
    if step["extra"]:
        data["something"] = [1, 2]
    return data, target


def outcome(chan: Any, data: Any) -> Any:
    """(success, what the channel holds afterwards)."""
    op = data.get("operation")
    held = chan["held"]
    if op == "get":
        return True, held, False
    if op == "set":
        if "value" not in data:
            return False, held, False
        value = data["value"]
        if chan["kind"] == "@":
            if not isinstance(value, str) or value.lower() not in LETTERS.values():
                return False, held, False
            want: Any = value.lower()
        elif model.accepts(chan["kind"], value):
            want = model.stored(chan["kind"], value)
        else:
            return False, held, False
    elif op in ("increment", "decrement"):
        if chan["kind"] == "@":
            return False, held, False
        amount = data.get("value", 1)
        if not isinstance(amount, (int, float)):
            return False, held, False
        total = model.plus(held, amount if op == "increment" else -amount)
        if not model.accepts(chan["kind"], total):
            return False, held, False
        want = model.stored(chan["kind"], total)
    else:
        return False, held, False
    if not chan["commandable"]:
        return False, held, False
    return True, want, True


def run(case: Any, rec: Rec) -> None:
    """A stream of commands against a model."""
    world = World(case)
    check(world.daemon.start(), "the daemon doesn't start")
    done = refused = 0
    now = 3.0
    try:
        for step in case["steps"]:
            if step["time"]:
                now += step["time"]
                world.env.set_time(now)
            data, chan = build(world, step)
            text = json.dumps(data)
            command = {"command": case["name"], "data": json.loads(text)}
            before = len(world.told)
            good, message = world.daemon.execute(command)
            what = f"after {short(text)}"
            if chan is None:
                same(good, False, f"result of {short(text)}")
                refused += 1
            else:
                want, held, changed = outcome(chan, data)
                same(
                    good,
                    want,
                    f"result of {short(text)} for a {chan['kind']} channel "
                    f"holding {short(chan['held'])}, "
                    f"commandable={chan['commandable']} ({message})",
                )
                chan["held"] = held
                if changed:
                    chan["at"] = now
                    done += 1
                elif not want:
                    refused += 1
                if data.get("operation") == "get":
                    same(message, str(held), "value that was read")
            same(world.told[before:], [good], "results told to the consumer")
            world.verify(what)
    finally:
        world.daemon.stop()
    rec.count("changed", done)
    rec.count("refused", refused)
    rec.nontrivial(done and refused)


PROP = Prop(
    "C15",
    [
        Facet(
            "commands",
            lambda: cases,
            run,
            2000,
            rule="streams of JSON commands; non-trivial = some change a channel "
            "and some are refused",
        )
    ],
    more=3,
    assumptions=[
        "commands are JSON documents",
        "identifiers are integers (JSON true/1.0 equal to an id not judged)",
    ],
)
