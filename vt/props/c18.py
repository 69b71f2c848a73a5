"""C18: daemon groups start and stop in dependency order, once each."""

from __future__ import annotations

import json
from typing import Any, Dict, List, Tuple

from hypothesis import strategies as st
from vtelem.daemon import DaemonState
from vtelem.daemon.command_queue import CommandQueueDaemon
from vtelem.daemon.manager import DaemonManager
from vtelem.daemon.queue import QueueDaemon
from vtelem.daemon.synchronous import Daemon
from vtelem.classes.metered_queue import create
from vtelem.enums.daemon import DaemonOperation
from vtelem.factories.daemon_manager import create_daemon_manager_commander

from vt import gen, net
from vt.core import Facet, Prop, Rec, check, same, short

OPERATIONS = ["start", "stop", "pause", "unpause", "restart"]


class Stand:
    """Stands in for a daemon and records what's done with it."""

    def __init__(self, name: str, log: List[Any], bad: List[str]) -> None:
        self.name = name
        self.log = log
        self.bad = bad
        self.state = DaemonState.IDLE

    def perform(self, operation: Any, *args: Any, **kwargs: Any) -> bool:
        """Some operation."""
        self.log.append((self.name, operation.name.lower(), args, kwargs))
        return operation.name.lower() not in self.bad

    def perform_str(self, operation: str, *args: Any, **kwargs: Any) -> bool:
        """The same by name."""
        return self.perform(DaemonOperation[operation.upper()], *args, **kwargs)

    def get_state(self) -> DaemonState:
        """The state."""
        return self.state

    def get_state_str(self) -> str:
        """The state's name."""
        return self.state.name.lower()


def name_of(num: int) -> str:
    """The name of a daemon."""
    return f"d{num}"


@st.composite
def graphs(draw: Any) -> Dict[str, Any]:
    """Dependency graphs of some shape."""
    shape = draw(
        st.sampled_from(
            ["random", "random", "any", "any", "chain", "layers", "deep", "star"]
        )
    )
    deps: List[List[int]]
    if shape == "random":
        size = draw(st.integers(1, 12))
        deps = [
            sorted(draw(st.sets(st.integers(0, x - 1), max_size=4)))
            if x
            else []
            for x in range(size)
        ]
    elif shape == "any":
        size = draw(st.integers(1, 9))
        deps = [
            draw(st.lists(st.integers(0, size - 1), max_size=3))
            for _ in range(size)
        ]
    elif shape == "chain":
        size = draw(st.integers(2, 60))
        deps = [[x - 1] if x else [] for x in range(size)]
    elif shape == "deep":
        size = draw(st.integers(200, 1500))
        deps = [[x - 1] if x else [] for x in range(size)]
    elif shape == "layers":
        width = draw(st.integers(2, 5))
        depth = draw(st.integers(2, 9))
        deps = []
        for level in range(depth):
            for _ in range(width):
                deps.append(
                    list(range((level - 1) * width, level * width))
                    if level
                    else []
                )
    else:
        size = draw(st.integers(2, 40))
        deps = [[] if x else list(range(1, size)) for x in range(size)]
    size = len(deps)
    order = list(range(size))
    if size <= 60:
        order = draw(st.permutations(order))
    elif draw(st.booleans()):
        order.reverse()
    return {"shape": shape, "deps": deps, "order": list(order)}


actions = gen.weighted(
    (
        4,
        st.tuples(
            st.sampled_from(["perform_all", "perform_str_all"]),
            st.sampled_from(OPERATIONS),
            st.integers(0, 2),
        ),
    ),
    (
        2,
        st.tuples(
            st.sampled_from(["perform", "perform_str"]),
            st.sampled_from(OPERATIONS),
            st.integers(-2, 12),
        ),
    ),
    (
        1,
        st.tuples(
            st.just("bad"), st.sampled_from(["", "begin", "none "]), st.integers(0, 5)
        ),
    ),
    (1, st.tuples(st.just("get"), st.just(""), st.integers(-2, 12))),
    (1, st.tuples(st.just("again"), st.just(""), st.integers(0, 12))),
    (
        2,
        st.tuples(
            st.just("command"), st.sampled_from(OPERATIONS), st.integers(0, 3)
        ),
    ),
    (
        1,
        st.tuples(
            st.just("request"), st.sampled_from(OPERATIONS), st.integers(0, 7)
        ),
    ),
)
cases = st.fixed_dictionaries(
    {
        "graph": graphs(),
        "unknown": st.dictionaries(
            st.integers(0, 11).map(str), st.sampled_from(["ghost", "other"]), max_size=1
        ),
        "bad": st.lists(
            st.tuples(st.integers(0, 11), st.sampled_from(OPERATIONS)), max_size=3
        ),
        "actions": st.lists(actions, min_size=1, max_size=6),
    }
)


class Setting:
    """A manager of stand-ins."""

    def __init__(self, case: Any) -> None:
        self.case = case
        graph = case["graph"]
        self.log: List[Any] = []
        self.manager = DaemonManager()
        self.deps: Dict[str, List[str]] = {}
        self.stands: Dict[str, Stand] = {}
        self.bad: Dict[str, List[str]] = {}
        for num, oper in case["bad"]:
            self.bad.setdefault(name_of(num), []).append(oper)
        self.unknown = False
        for num in graph["order"]:
            name = name_of(num)
            deps = [name_of(x) for x in graph["deps"][num]]
            if str(num) in case["unknown"]:
                deps.append(case["unknown"][str(num)])
                self.unknown = True
            stand = Stand(name, self.log, self.bad.get(name, []))
            self.stands[name] = stand
            self.deps[name] = deps
            given: Any = list(deps)
            if not deps:
                given = None if num % 2 else []
            same(
                self.manager.add_daemon(stand, given), True, f"adding {name}"
            )
        self.daemon = CommandQueueDaemon("command")
        create_daemon_manager_commander(self.manager, self.daemon)
        # what each one depends on, directly or not
        self.reach: Dict[str, set] = {}
        self.cyclic = self.closure()

    def closure(self) -> bool:
        """Whether there's a cycle."""
        done: Dict[str, int] = {}
        for name in self.deps:
            stack = [(name, iter(self.deps[name]))]
            if name in done:
                continue
            done[name] = 1
            while stack:
                curr, left = stack[-1]
                for dep in left:
                    if dep not in self.deps:
                        continue
                    if done.get(dep) == 1:
                        return True
                    if dep not in done:
                        done[dep] = 1
                        stack.append((dep, iter(self.deps[dep])))
                        break
                else:
                    done[curr] = 2
                    stack.pop()
        return False

    def all_acted(self, oper: str, args: Any, kwargs: Any, what: str) -> None:
        """Each once, dependencies first."""
        names = [x[0] for x in self.log]
        check(
            len(names) == len(set(names)),
            f"{what}: some daemons are acted on more than once: {short(names)}",
            "once",
        )
        missing = set(self.deps) - set(names)
        check(not missing, f"{what}: {short(missing)} aren't acted on", "once")
        for entry in self.log:
            same(entry[1:], (oper, args, kwargs), f"{what}: action on {entry[0]}")
        if self.cyclic:
            return
        place = {x: num for num, x in enumerate(names)}
        for name, deps in self.deps.items():
            for dep in deps:
                if dep in place:
                    check(
                        place[dep] < place[name],
                        f"{what}: {name} comes before {dep}, which it needs",
                        "order",
                    )


def run(case: Any, rec: Rec) -> None:
    """Operations on a group."""
    setting = Setting(case)
    manager = setting.manager
    names = list(setting.deps)
    for kind, oper, num in case["actions"]:
        setting.log.clear()
        what = f"{kind} {oper!r} {num}"
        args: Tuple[Any, ...] = tuple(range(num)) if num > 0 else ()
        kwargs = {"key": num} if num == 2 else {}
        fails = [x for x in names if oper in setting.bad.get(x, [])]
        if kind in ("perform_all", "perform_str_all"):
            if kind == "perform_all":
                result = manager.perform_all(
                    DaemonOperation[oper.upper()], *args, **kwargs
                )
            else:
                text = oper.upper() if num == 1 else oper
                result = manager.perform_str_all(text, *args, **kwargs)
            setting.all_acted(oper, args, kwargs, what)
            if not setting.unknown:
                same(result, not fails, f"result of {what}")
            elif fails:
                same(result, False, f"result of {what}")
        elif kind in ("perform", "perform_str"):
            name = names[num % len(names)] if num >= 0 else f"ghost{num}"
            if kind == "perform":
                result = manager.perform(name, DaemonOperation[oper.upper()])
            else:
                result = manager.perform_str(name, oper)
            want = [(name, oper, (), {})] if num >= 0 else []
            same(setting.log, want, f"actions of {what}")
            good = num >= 0 and oper not in setting.bad.get(name, [])
            same(result, good, f"result of {what}")
        elif kind == "bad":
            same(manager.perform_str_all(oper), False, what)
            same(
                manager.perform_str(names[num % len(names)], oper), False, what
            )
            same(setting.log, [], f"actions of {what}")
        elif kind == "get":
            name = names[num % len(names)] if num >= 0 else f"ghost{num}"
            want = setting.stands[name] if num >= 0 else None
            check(manager.get(name) is want, f"{what} gives something else")
        elif kind == "again":
            name = names[num % len(names)]
            twin = Stand(name, setting.log, [])
            same(
                manager.add_daemon(twin, ["ghost", *names[:1]]), False, what
            )
            check(
                manager.get(name) is setting.stands[name],
                f"{what}: a duplicate replaced {name}",
            )
        elif kind == "request":
            request(setting, oper, num, what)
        else:
            command(setting, oper, num, what)
        states = manager.states()
        same(
            states, dict.fromkeys(names, "idle"), f"states after {what}"
        )
        same(
            manager.states(False),
            dict.fromkeys(names, DaemonState.IDLE),
            f"states after {what}",
        )
    rec.label(case["graph"]["shape"])
    if setting.cyclic:
        rec.label("cyclic")
    if setting.unknown:
        rec.label("unknown-dependency")
    rec.nontrivial(
        any(setting.deps.values())
        and any(x[0] in ("perform_all", "perform_str_all") for x in case["actions"])
    )


def command(setting: Setting, oper: str, num: int, what: str) -> None:
    """The same by a command."""
    names = list(setting.deps)
    if num == 0:
        wanted = ["all"]
    elif num == 1:
        wanted = names[: 1 + len(names) // 2]
    elif num == 2:
        wanted = ["ghost"] + names[:2]
    else:
        wanted = []
    with setting.daemon.booted():
        net.wait(
            lambda: setting.daemon.get_state() == DaemonState.RUNNING, "a start"
        )
        good, text = setting.daemon.execute(
            {"command": "daemon", "data": {"operation": oper, "daemons": wanted}}
        )
    if num == 0:
        setting.all_acted(oper, (), {}, what)
    else:
        same(
            [x[0] for x in setting.log],
            [x for x in wanted if x != "ghost"],
            f"daemons acted on by {what}",
        )
    asked = names if num == 0 else wanted
    fails = [
        x for x in asked if x == "ghost" or oper in setting.bad.get(x, [])
    ]
    if not (num == 0 and setting.unknown):
        same(good, not fails, f"result of {what}")
    data = json.loads(text)
    for name in asked:
        same(data["results"][name], name not in fails, f"result of {name}")
        if name != "ghost":
            same(data[name], "idle", f"state of {name}")


def request(setting: Setting, oper: str, num: int, what: str) -> None:
    """Commands of other forms."""
    names = list(setting.deps)
    data: Any = [
        {"operation": "states"},
        {"operation": "States", "daemons": ["all"]},
        {"operation": oper.upper(), "daemons": names[:1]},
        {"operation": oper.title(), "daemons": ["ghost", "all"]},
        {"operation": oper},
        {"operation": oper, "daemons": "all"},
        {"operation": oper + "s", "daemons": names},
        {"daemons": names},
    ][num]
    with setting.daemon.booted():
        net.wait(
            lambda: setting.daemon.get_state() == DaemonState.RUNNING, "a start"
        )
        good, text = setting.daemon.execute({"command": "daemon", "data": data})
    what = f"{what}: {short(data)}"
    fails = [x for x in names if oper in setting.bad.get(x, [])]
    if num < 2:
        same(good, True, f"result of {what}")
        same(json.loads(text), dict.fromkeys(names, "idle"), f"answer to {what}")
    if num == 2:
        same(setting.log, [(names[0], oper, (), {})], f"actions of {what}")
        same(good, names[0] not in fails, f"result of {what}")
    elif num == 3:
        setting.all_acted(oper, (), {}, what)
        if not setting.unknown:
            same(good, not fails, f"result of {what}")
    else:
        same(setting.log, [], f"actions of {what}")
    if num > 3:
        same(good, False, f"result of {what}")
        check(text, f"no reason for {what}")


# -- real daemons -------------------------------------------------------------

real = st.fixed_dictionaries(
    {
        "kinds": st.lists(
            st.sampled_from(["daemon", "queue"]), min_size=1, max_size=6
        ),
        "deps": st.lists(
            st.lists(st.integers(0, 5), max_size=2), min_size=6, max_size=6
        ),
        "actions": st.lists(
            st.sampled_from(
                ["start", "stop", "pause", "unpause", "restart", "start", "stop"]
            ),
            min_size=2,
            max_size=8,
        ),
    }
)


def run_real(case: Any, rec: Rec) -> None:
    """All daemons of a group follow."""
    manager = DaemonManager()
    daemons: List[Any] = []
    order: List[Tuple[str, str]] = []
    for num, kind in enumerate(case["kinds"]):
        name = name_of(num)
        daemon: Any
        if kind == "daemon":
            daemon = Daemon(name, lambda *_: None, 0.001)
        else:
            daemon = QueueDaemon(name, create(), lambda _: None)

        def note(prev: Any, state: Any, _: float, who: str = name) -> None:
            """Record the order of changes."""
            del prev
            order.append((who, state.name))

        daemon.function["state_change"] = note
        deps = [name_of(x) for x in case["deps"][num] if x < num]
        same(manager.add_daemon(daemon, deps), True, "adding")
        daemons.append((daemon, deps))
    state = "IDLE"
    skips = {
        "start": ["RUNNING"],
        "stop": ["IDLE"],
        "pause": ["PAUSED"],
        "unpause": ["IDLE", "RUNNING"],
        "restart": [],
    }
    begins = {
        "start": ("IDLE", "STARTING", "RUNNING"),
        "stop": ("RUNNING", "IDLE", "IDLE"),
        "pause": ("RUNNING", "PAUSED", "PAUSED"),
        "unpause": ("PAUSED", "RUNNING", "RUNNING"),
        "restart": ("RUNNING", "STARTING", "RUNNING"),
    }
    try:
        for oper in case["actions"]:
            order.clear()
            need, mark, after = begins[oper]
            good = state in skips[oper] or state == need
            result = manager.perform_str_all(oper)
            same(result, good, f"{oper} in {state}")
            if state not in skips[oper] and state == need:
                state = after
                for daemon, deps in daemons:
                    check(
                        (daemon.name, mark) in order,
                        f"{oper}: {daemon.name} isn't affected",
                    )
                    for dep in deps:
                        check(
                            order.index((dep, mark))
                            < order.index((daemon.name, mark)),
                            f"{oper}: {daemon.name} comes before {dep}",
                            "order",
                        )
            net.wait(
                lambda: all(
                    x.get_state() != DaemonState.STARTING for x, _ in daemons
                ),
                "starting",
            )
            same(
                manager.states(),
                {x.name: state.lower() for x, _ in daemons},
                f"states after {oper}",
            )
    finally:
        for daemon, _ in daemons:
            if daemon.get_state() == DaemonState.PAUSED:
                daemon.unpause()
            daemon.stop()
    rec.nontrivial(len(daemons) > 1 and any(x for _, x in daemons))


PROP = Prop(
    "C18",
    [
        Facet(
            "graphs",
            lambda: cases,
            run,
            1500,
            rule="operations on dependency graphs of all shapes; non-trivial = "
            "there are dependencies and an operation on all",
            hang=20,
        ),
        Facet(
            "real",
            lambda: real,
            run_real,
            300,
            thorough=4000,
            rule="operations on groups of real daemons; non-trivial = several "
            "daemons with dependencies",
        ),
    ],
    more=5,
    assumptions=[
        "operations of the daemons return, and don't raise",
        "an unknown dependency may count as a failure of the whole",
        "in a dependency cycle any order is right",
    ],
)
