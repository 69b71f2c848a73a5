"""C21: queue metrics agree with what went through the queue."""

from __future__ import annotations

import sys
import threading
from queue import Empty, Full
from typing import Any, Dict, List, Optional

from hypothesis import strategies as st
from vtelem.classes.metered_queue import MeteredQueue, create
from vtelem.telemetry.environment import TelemetryEnvironment

from vt import gen, sched
from vt.core import Facet, Prop, Rec, check, same

kinds = gen.weighted(
    (4, st.just("put")),
    (2, st.just("put_nowait")),
    (1, st.just("put_timeout")),
    (4, st.just("get")),
    (2, st.just("get_nowait")),
    (1, st.just("get_timeout")),
)
histories = st.fixed_dictionaries(
    {
        "metrics": st.sampled_from([1.0, 0.5, 1.0, None]),
        "sizes": st.lists(
            st.one_of(st.integers(1, 4), st.just(0)), min_size=1, max_size=3
        ),
        "steps": st.lists(
            st.tuples(kinds, st.integers(0, 2)), min_size=6, max_size=40
        ),
        "frame": st.booleans(),
        "via": st.booleans(),
    }
)


def operate(queue: Any, kind: str, item: Any) -> Any:
    """Use a queue, without ever blocking for long."""
    try:
        if kind == "put":
            queue.put(item, False)
        elif kind == "put_nowait":
            queue.put_nowait(item)
        elif kind == "put_timeout":
            queue.put(item, True, 0.0005)
        elif kind == "get":
            return queue.get(False)
        elif kind == "get_nowait":
            return queue.get_nowait()
        elif kind == "get_timeout":
            return queue.get(True, 0.0005)
        else:
            raise AssertionError(kind)
    except Full:
        return "full"
    except Empty:
        return "empty"
    return None


def metrics(env: Any, name: str) -> List[int]:
    """What is published for a queue."""
    return [
        env.get_metric(f"{name}_queue.{x}")
        for x in ("elements", "total_enqueued", "total_dequeued")
    ]


def run_history(case: Any, rec: Rec) -> None:
    """Histories of one thread against lists."""
    env = TelemetryEnvironment(
        256, metrics_rate=case["metrics"], app_id_basis=0.5
    )
    names, queues, models = [], [], []
    for num, size in enumerate(case["sizes"]):
        names.append(f"queue{num}")
        if case["via"]:
            queues.append(create(names[-1], env, size))
        else:
            queues.append(MeteredQueue(names[-1], env, size))
        models.append([])
    if case["frame"]:
        names.append("frame")
        queues.append(env.frame_queue)
        models.append([])
    totals = [[0, 0] for _ in queues]
    sizes = list(case["sizes"]) + [256]
    refused = 0
    for num, (kind, which) in enumerate(case["steps"]):
        which %= len(queues)
        queue, model = queues[which], models[which]
        got = operate(queue, kind, num)
        if kind.startswith("put"):
            if sizes[which] and len(model) >= sizes[which]:
                same(got, "full", "result of putting into a full queue")
                refused += 1
            else:
                same(got, None, "result of putting")
                model.append(num)
                totals[which][0] += 1
        elif model:
            same(got, model.pop(0), "item")
            totals[which][1] += 1
        else:
            same(got, "empty", "result of getting from an empty queue")
            refused += 1
        for at, name in enumerate(names):
            same(queues[at].qsize(), len(models[at]), "waiting items")
            if case["metrics"] is not None:
                same(
                    metrics(env, name),
                    [len(models[at])] + totals[at],
                    f"elements, enqueued and dequeued of queue {at} after "
                    f"{kind} of queue {which}",
                )
    rec.count("refused", refused)
    rec.nontrivial(
        refused and sum(x[1] for x in totals) and case["metrics"] is not None
    )


# -- preemption ---------------------------------------------------------------

parts = st.lists(
    st.sampled_from(
        ["put", "put", "get", "get", "put_nowait", "get_nowait", "put_timeout"]
    ),
    min_size=1,
    max_size=2,
)
races = st.fixed_dictionaries(
    {
        "size": st.sampled_from([0, 1, 2, 3]),
        "fill": st.integers(0, 3),
        "one": parts,
        "two": parts,
        "fine": st.sampled_from([False, False, False, True]),
        "picks": st.lists(st.floats(0, 0.999), min_size=12, max_size=12),
    }
)


class Shared:
    """A queue in an environment."""

    def __init__(self, size: int, fill: int) -> None:
        self.env = TelemetryEnvironment(256, metrics_rate=1.0, app_id_basis=0.5)
        self.queue = MeteredQueue("shared", self.env, size)
        for num in range(fill if size == 0 else min(fill, size)):
            self.queue.put(f"old{num}")


def look(ctx: Shared) -> Any:
    """The published numbers and what waits."""
    numbers = metrics(ctx.env, "shared")
    size = ctx.queue.qsize()
    check(
        numbers[0] == size == numbers[1] - numbers[2],
        f"{size} items wait, elements/enqueued/dequeued are {numbers}",
        "disagree",
    )
    items = [ctx.queue.get() for _ in range(size)]
    return numbers, items


def run_race(case: Any, rec: Rec) -> None:
    """Two threads, one interrupts the other at every point."""

    def steps(tag: str, kind: List[str]) -> Any:
        """Steps on the queue."""
        return [
            lambda ctx, k=k, n=n: operate(ctx.queue, k, f"{tag}{n}")
            for n, k in enumerate(kind)
        ]

    amount = sched.explore(
        lambda: Shared(case["size"], case["fill"]),
        steps("one", case["one"]),
        steps("two", case["two"]),
        look,
        case["picks"],
        case["fine"],
        30,
        rec,
        f"{case['one']} against {case['two']}",
    )
    rec.nontrivial(amount > 3)


# -- free running threads -----------------------------------------------------

crowds = st.fixed_dictionaries(
    {
        "size": st.sampled_from([1, 2, 5, 256]),
        "producers": st.integers(1, 4),
        "consumers": st.integers(1, 4),
        "items": st.integers(20, 120),
    }
)


def run_crowd(case: Any, rec: Rec) -> None:
    """Producers and consumers, then everything adds up."""
    env = TelemetryEnvironment(256, metrics_rate=1.0, app_id_basis=0.5)
    queue = MeteredQueue("shared", env, case["size"])
    got: Dict[int, List[Any]] = {}
    failed: List[str] = []

    def produce(who: int) -> None:
        """Put items."""
        try:
            for num in range(case["items"]):
                queue.put((who, num), timeout=20)
        except Exception as exc:  # pylint: disable=broad-except
            failed.append(f"putting raised {exc!r}")

    def consume(who: int) -> None:
        """Take items until told to stop."""
        got[who] = []
        try:
            while True:
                item: Optional[Any] = queue.get(timeout=20)
                if item is None:
                    return
                got[who].append(item)
        except Exception as exc:  # pylint: disable=broad-except
            failed.append(f"getting raised {exc!r}")

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        makers = [
            threading.Thread(target=produce, args=(x,), daemon=True)
            for x in range(case["producers"])
        ]
        takers = [
            threading.Thread(target=consume, args=(x,), daemon=True)
            for x in range(case["consumers"])
        ]
        for thread in makers + takers:
            thread.start()
        for thread in makers:
            thread.join(40)
        for _ in takers:
            queue.put(None, timeout=20)
        for thread in takers:
            thread.join(40)
            check(not thread.is_alive(), "a consumer is stuck", "stuck")
    finally:
        sys.setswitchinterval(interval)
    check(not failed, "; ".join(failed[:3]))
    total = case["producers"] * case["items"]
    same(
        metrics(env, "shared"),
        [0, total + len(takers), total + len(takers)],
        "elements, enqueued and dequeued at the end",
    )
    items = sorted(x for y in got.values() for x in y)
    same(
        items,
        [(x, y) for x in range(case["producers"]) for y in range(case["items"])],
        "items that came out",
    )
    for stream in got.values():
        for who in range(case["producers"]):
            order = [x[1] for x in stream if x[0] == who]
            same(order, sorted(order), "order of items")
    rec.count("items", total)
    rec.nontrivial(True)


PROP = Prop(
    "C21",
    [
        Facet(
            "history",
            lambda: histories,
            run_history,
            2500,
            rule="histories over several queues; non-trivial = refused "
            "operations and items taken, with metrics",
        ),
        Facet(
            "preempted",
            lambda: races,
            run_race,
            400,
            rule="one operation interrupted by another at every line (or at "
            "picked bytecodes); non-trivial = several points",
        ),
        Facet(
            "crowd",
            lambda: crowds,
            run_crowd,
            150,
            thorough=2000,
            rule="free running producers and consumers",
        ),
    ],
    more=2,
    assumptions=["one preemption per schedule in the preempted facet"],
)
