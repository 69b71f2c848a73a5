"""C05: a dispatch emits every due channel exactly once."""

from __future__ import annotations

import threading
from typing import Any

from hypothesis import strategies as st
from vtelem.channel import Channel
from vtelem.channel.environment import ChannelEnvironment
from vtelem.classes.user_enum import user_enum
from vtelem.enums.primitive import Primitive
from vtelem.telemetry.environment import TelemetryEnvironment

from vt import envs, gen, model
from vt.core import Facet, Prop, Rec, check, same

KINDS = ["set", "now", "add", "command", "by-name", "by-id"]


@st.composite
def cases(draw: Any) -> Any:
    """Histories in which dispatches and rates dominate."""
    return {
        "env": draw(envs.specs),
        "steps": draw(
            model.histories(
                {"assign": 6, "dispatch": 8, "add": 2, "rate": 3, "time": 1},
                KINDS,
                hows=("plain", "plain", "plain", "now", "advance", "data"),
                max_chans=14,
                max_steps=40,
            )
        ),
    }


def run(case: Any, rec: Rec) -> None:
    """The emissions are those of the model."""
    driver = model.run(case, {"emits"})
    stats = driver.stats
    sizes = len(driver.model.chans)
    rec.label(f"channels>={min(sizes // 4 * 4, 12)}")
    if stats.get("overflowing"):
        rec.label("several-frames")
    rec.label("metrics" if case["env"]["metrics"] else "no-metrics")
    rates = {x.rate for x in driver.model.chans}
    rec.count("emitted", stats.get("emitted", 0))
    rec.nontrivial(len(rates) > 1 and stats.get("emitted", 0) > sizes)


# -- many channels, small frames ----------------------------------------------


@st.composite
def crowds(draw: Any) -> Any:
    """More channels than fit one frame, with rates of their own."""
    amount = draw(st.integers(1, 120))
    kinds = draw(st.lists(gen.prims, min_size=1, max_size=6))
    rates = draw(st.lists(gen.rates, min_size=1, max_size=5))
    times = draw(st.lists(gen.exact_times(160), min_size=1, max_size=8))
    spec = draw(envs.specs)
    return {
        "env": spec,
        "amount": amount,
        "kinds": kinds,
        "rates": rates,
        "times": sorted(times),
        "seed": draw(st.integers(0, 2**30)),
        "mtus": draw(st.lists(st.integers(53, 200), max_size=8)),
    }


def run_crowd(case: Any, rec: Rec) -> None:
    """Frame boundaries lose, repeat and reorder nothing."""
    env = envs.make_env(case["env"])
    driver = model.Driver(env, {"emits"}, case["env"])
    for num in range(case["amount"]):
        prim = case["kinds"][num % len(case["kinds"])]
        driver.add(
            {
                "name": f"c{num}",
                "prim": prim,
                "rate": case["rates"][num % len(case["rates"])],
                "track": False,
                "init": None,
                "commandable": True,
            }
        )
    driver.dispatch({"do": "dispatch", "time": 0.0, "how": "plain"})
    for num, time in enumerate(case["times"]):
        if num < len(case["mtus"]):
            env.handle_new_mtu(case["mtus"][num])
        for chan in driver.model.chans:
            value = (case["seed"] + num * 31 + chan.ident * 7) % 100
            driver.assign(
                {
                    "chan": driver.model.chans.index(chan),
                    "kind": "set",
                    "time": time,
                    "value": value % 2 == 0
                    if chan.prim == "BOOLEAN"
                    else model.stored(chan.prim, value),
                }
            )
        driver.dispatch({"do": "dispatch", "time": time, "how": "plain"})
    rec.label(f"channels>={case['amount'] // 40 * 40}")
    rec.nontrivial(driver.stats.get("overflowing"))


# -- channels handed in at creation -------------------------------------------


@st.composite
def initials(draw: Any) -> Any:
    """Channels created before their environment."""
    return {
        "env": draw(envs.specs),
        "chans": draw(envs.channels(max_size=8)),
        "plain": draw(st.booleans()),
        "after": draw(st.sampled_from(["keep", "clear", "extend", "reverse"])),
        "more": draw(st.integers(0, 4)),
        "times": draw(st.lists(gen.exact_times(80), min_size=1, max_size=5)),
        "twice": draw(st.booleans()),
    }


def run_initial(case: Any, rec: Rec) -> None:
    """They take part as those added later, whatever becomes of the list."""
    spec = case["env"]
    first = []
    for num, chan in enumerate(case["chans"]):
        one = Channel(chan["name"], Primitive[chan["prim"]], chan["rate"])
        if chan["init"] is not None:
            one.set(chan["init"][0], chan["init"][1])
        first.append(one)
    kwargs = {
        "initial_channels": first,
        "metrics_rate": spec["metrics"],
        "init_time": spec["time"],
        "app_id_basis": spec["basis"],
        **envs.checksums(spec),
    }
    kind: Any = ChannelEnvironment if case["plain"] else TelemetryEnvironment
    env = kind(spec["mtu"], **kwargs)
    same(len(first), len(case["chans"]), "length of the list handed in")
    driver = model.Driver(env, {"emits"}, spec)
    for num, chan in enumerate(case["chans"]):
        ident = env.channel_registry.get_id(chan["name"])
        check(ident is not None, f"initial channel {chan['name']} is unknown")
        into = driver.adopt(ident, {**chan, "track": False})
        if chan["init"] is not None:
            into.value = model.stored(chan["prim"], chan["init"][0])
    if case["after"] == "clear":
        first.clear()
    elif case["after"] == "extend":
        first.append(Channel("stray", Primitive.INT8, 0.0))
    elif case["after"] == "reverse":
        first.reverse()
    for num in range(case["more"]):
        driver.add(
            {
                "name": f"late{num}",
                "prim": gen.PRIMS[num % len(gen.PRIMS)],
                "rate": num / 8.0,
                "track": False,
                "init": None,
                "commandable": True,
            }
        )
    for time in sorted(case["times"]):
        driver.dispatch({"do": "dispatch", "time": time, "how": "plain"})
    rec.label(case["after"], "plain" if case["plain"] else "telemetry")
    rec.nontrivial(len(case["chans"]) > 1)


# -- concurrent assignments ---------------------------------------------------

racing = st.fixed_dictionaries(
    {
        "env": envs.specs,
        "chans": st.integers(1, 12),
        "writers": st.integers(1, 3),
        "rounds": st.integers(2, 25),
    }
)


def run_racing(case: Any, rec: Rec) -> None:
    """While other threads assign, each dispatch has each channel once."""
    env = envs.make_env(case["env"])
    ids = [
        env.add_channel(f"c{x}", Primitive.UINT32, 0.0)
        for x in range(case["chans"])
    ]
    stop = threading.Event()

    def writer(num: int) -> None:
        value = 0
        while not stop.is_set():
            value += 1
            for ident in ids[num :: case["writers"]]:
                env.set_now(ident, value)

    threads = [
        threading.Thread(target=writer, args=(x,), daemon=True)
        for x in range(case["writers"])
    ]
    for thread in threads:
        thread.start()
    try:
        last = {x: 0 for x in ids}
        types = envs.channel_types(env)
        for num in range(case["rounds"]):
            low = {x: env.get_value(x) for x in ids}
            env.dispatch(float(num))
            high = {x: env.get_value(x) for x in ids}
            got = []
            for raw in envs.drain(env):
                frame = envs.parse(raw, types, case["env"]["crc"])
                if frame["type"] == 1:
                    got += [x for x in frame["elems"] if x[0] in last]
            same([x[0] for x in got], ids, "channels of a dispatch")
            for ident, raw in got:
                value = int.from_bytes(raw, "big")
                check(
                    low[ident] <= value <= high[ident],
                    f"emitted {value}, held {low[ident]}..{high[ident]}",
                )
                last[ident] = value
    finally:
        stop.set()
        for thread in threads:
            thread.join(30)
    rec.nontrivial(case["rounds"] > 4)


# -- metrics ------------------------------------------------------------------

dyadic = st.sampled_from([0.0, 0.125, 0.25, 0.5, 1.0, 2.0, 7.5])
metrics = st.fixed_dictionaries(
    {
        "env": envs.specs,
        "rate": dyadic,
        "steps": st.lists(
            st.one_of(
                st.tuples(st.just("dispatch"), st.integers(0, 24)),
                st.tuples(st.just("dispatch"), st.integers(0, 24)),
                st.tuples(st.just("add"), st.booleans(), st.booleans()),
                st.tuples(st.just("metric"), st.integers(0, 12), dyadic),
                st.tuples(st.just("all"), dyadic),
                st.tuples(st.just("channel"), dyadic),
            ),
            min_size=2,
            max_size=20,
        ),
    }
)


def run_metrics(case: Any, rec: Rec) -> None:
    """Metrics are emitted at the rate of metrics."""
    env = envs.make_env({**case["env"], "metrics": case["rate"], "time": 0.0})
    env.add_enum(user_enum("letters", {0: "a", 1: "b"}))
    assert env.metrics is not None
    rates = dict.fromkeys(env.metrics.values(), case["rate"])
    last = dict.fromkeys(rates, 0.0)
    rate, now, some, skipped = case["rate"], 0.0, 0, 0
    for num, step in enumerate(case["steps"]):
        if step[0] == "add":
            count = env.channel_registry.count()
            for _ in range(1 + step[2]):
                # one that is there already is left alone
                if step[1]:
                    env.add_enum_metric(f"m{num}", "letters")
                else:
                    env.add_metric(f"m{num}", Primitive.UINT8)
            same(env.channel_registry.count(), count + 1, "channels")
            check(env.has_metric(f"m{num}"), f"m{num} isn't a metric")
            ident = env.metrics[f"m{num}"]
            rates[ident], last[ident] = rate, 0.0
        elif step[0] == "metric":
            names = sorted(env.metrics)
            name = names[step[1] % len(names)]
            env.set_metric_rate(name, step[2])
            rates[env.metrics[name]] = step[2]
        elif step[0] == "all":
            env.set_metric("metrics_rate", step[1], now)
            rate = step[1]
        elif step[0] == "channel":
            # no metric
            ident = env.add_channel(f"c{num}", Primitive.BOOLEAN, step[1])
            rates[ident], last[ident] = step[1], 0.0
        else:
            now += step[1] / 8.0
            env.dispatch(now)
            types = envs.channel_types(env)
            got = []
            for raw in envs.drain(env):
                frame = envs.parse(raw, types, case["env"]["crc"])
                if frame["type"] == 1:
                    got += [x[0] for x in frame["elems"]]
            want = [x for x in rates if now >= last[x] + rates[x]]
            same(sorted(got), sorted(want), f"channels emitted at {now}")
            last.update(dict.fromkeys(want, now))
            some += len(want)
            skipped += len(rates) - len(want)
    rec.nontrivial(some and skipped)


PROP = Prop(
    "C05",
    [
        Facet(
            "histories",
            lambda: cases(),
            run,
            1000,
            rule="random histories; non-trivial = channels with different "
            "rates and more emissions than channels",
        ),
        Facet(
            "crowd",
            lambda: crowds(),
            run_crowd,
            180,
            rule="up to 120 channels in small frames; non-trivial = a dispatch "
            "of more than two frames",
        ),
        Facet(
            "initial",
            lambda: initials(),
            run_initial,
            500,
            rule="channels handed to the constructor, the list changed "
            "afterwards; non-trivial = several channels",
        ),
        Facet(
            "racing",
            lambda: racing,
            run_racing,
            60,
            rule="assignments from other threads during dispatches; "
            "non-trivial = more than four dispatches",
        ),
        Facet(
            "metrics",
            lambda: metrics,
            run_metrics,
            250,
            rule="metrics of an environment and more of them; non-trivial = "
            "some emitted and some not yet",
        ),
    ],
    more=2,
    assumptions=[
        "a channel that was never emitted counts as last emitted at time zero",
        "times and rates are multiples of 1/8 s, so sums are exact",
    ],
)
