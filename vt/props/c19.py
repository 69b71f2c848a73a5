"""C19: state machines run exactly the transitions they are given."""

from __future__ import annotations

from typing import Any, Dict, List, Optional, Tuple

from hypothesis import strategies as st
from vtelem.classes.state import State
from vtelem.classes.state_machine import StateMachine
from vtelem.telemetry.environment import TelemetryEnvironment

from vt import gen, sched
from vt.core import Facet, Prop, Rec, check, same

answers = gen.weighted(
    (10, st.just(True)), (4, st.just(False)), (1, st.just("raise"))
)
targets = gen.weighted(
    (12, st.integers(0, 5)),
    (3, st.just("same")),
    (1, st.just("unknown")),
    (1, st.just("none")),
    (1, st.just("raise")),
)
hooks = st.fixed_dictionaries(
    {
        "run": gen.weighted((9, st.just(True)), (1, st.just(False))),
        "entering": gen.weighted((5, st.just(True)), (1, st.just(False))),
        "leaving": gen.weighted((5, st.just(True)), (1, st.just(False))),
        "metrics": st.booleans(),
    }
)
steps = st.fixed_dictionaries(
    {
        "target": targets,
        "leave": answers,
        "enter": answers,
        "data": st.one_of(
            st.none(),
            st.dictionaries(
                st.sampled_from(["a", "b", "c"]), st.integers(0, 9), max_size=2
            ),
        ),
        "write": st.booleans(),
        "apart": st.booleans(),
    }
)
machines = st.fixed_dictionaries(
    {
        "states": st.lists(hooks, min_size=1, max_size=6),
        "initial": st.one_of(st.none(), st.integers(0, 5)),
        "refuse": gen.weighted((9, st.just(False)), (1, st.just(True))),
        "env": st.sampled_from([False, True, True]),
        "data": st.booleans(),
        "steps": st.lists(steps, min_size=1, max_size=30),
    }
)


class Oops(Exception):
    """Raised by a handler."""


class World:
    """A machine whose handlers do what the case says, and record it."""

    def __init__(self, case: Any) -> None:
        self.log: List[Tuple[Any, ...]] = []
        self.plan: Dict[str, Any] = {}
        self.case = case
        self.env: Optional[TelemetryEnvironment] = None
        if case["env"]:
            self.env = TelemetryEnvironment(
                512, metrics_rate=1.0, app_id_basis=0.5
            )
        self.states = [
            self.state(f"s{num}", spec)
            for num, spec in enumerate(case["states"])
        ]
        self.names = [x.name for x in self.states]
        self.seen: List[Any] = []

    def answer(self, key: str) -> bool:
        """What a leaving or entering handler does."""
        result = self.plan[key]
        if result == "raise":
            raise Oops(key)
        return result

    def state(self, name: str, spec: Any) -> State:
        """Make a state."""

        def run(data: Any) -> Any:
            self.log.append(("run", name, dict(data)))
            if self.plan.get("write"):
                data["written"] = name
            target = self.plan["target"]
            if target == "raise":
                raise Oops("run")
            if target == "same":
                return name
            if target == "unknown":
                return "s99"
            if target == "none":
                return None
            return self.names[target % len(self.names)]

        def entering(prev: str, data: Any) -> bool:
            self.log.append(("enter", name, prev, dict(data)))
            return self.answer("enter")

        def leaving(following: str, data: Any) -> bool:
            self.log.append(("leave", name, following, dict(data)))
            return self.answer("leave")

        return State(
            name,
            run if spec["run"] else None,
            entering if spec["entering"] else None,
            leaving if spec["leaving"] else None,
            self.env if spec["metrics"] else None,
        )


def run(case: Any, rec: Rec) -> None:
    """A machine against a model."""
    world = World(case)
    count = len(world.states)
    initial = case["initial"]
    start = 0 if initial is None else initial % count
    specs = case["states"]
    first = {"first": 1} if case["data"] else None
    world.plan = {"enter": not case["refuse"]}
    begin = None if initial is None else world.states[start]
    machine: Any = None
    try:
        machine = StateMachine(
            "m", world.states, begin, first, world.env
        )
    except AssertionError:
        check(
            case["refuse"] and specs[start]["entering"],
            "a machine whose initial state can be entered is refused",
        )
    entered = [[("enter", f"s{start}", f"s{start}", dict(first or {}))]]
    if not specs[start]["entering"]:
        entered = [[]]
    same(world.log, entered[0], "the handlers called when constructing")
    if machine is None:
        rec.label("refused-initial")
        return
    check(
        not (case["refuse"] and specs[start]["entering"]),
        "a machine starts in a state that refuses to be entered",
    )

    current = start
    data = dict(first or {})
    sums = {
        f"state.s{num}.{x}": 0
        for num in range(count)
        for x in (
            "enter_attempts",
            "enter_successes",
            "exit_attempts",
            "exit_successes",
            "iterations",
        )
    }
    for name in ("enter_fails", "exit_fails", "transitions", "iterations"):
        sums[f"machine.m.{name}"] = 0
    sums[f"state.s{start}.enter_attempts"] = 1
    sums[f"state.s{start}.enter_successes"] = 1
    raised = False
    moves = refused = 0
    for num, step in enumerate(case["steps"]):
        what = f"step {num} ({step['target']}) in s{current}"
        world.plan = step
        world.log = []
        want: List[Any] = []
        data.update(step["data"] or {})
        outcome: Any = None  # name of the state it ends in, or an error
        spec = specs[current]
        target: Any = current
        after = current
        if spec["run"]:
            want.append(("run", f"s{current}", dict(data)))
            if step["write"]:
                data["written"] = f"s{current}"
            target = step["target"]
            if target == "same":
                target = current
            elif isinstance(target, int):
                target %= count
        delta: Dict[str, int] = {}

        def add(name: str, value: int) -> None:
            """A metric changes."""
            delta[name] = delta.get(name, 0) + value

        if isinstance(target, str):
            outcome = "error"
            if target == "raise":
                raised = True
        if outcome is None:
            add(f"state.s{current}.iterations", 1)
            if target != current:
                leave: Any = True
                if spec["leaving"]:
                    want.append(("leave", f"s{current}", f"s{target}", dict(data)))
                    leave = step["leave"]
                enter: Any = None
                if leave is True:
                    enter = True
                    if specs[target]["entering"]:
                        want.append(
                            ("enter", f"s{target}", f"s{current}", dict(data))
                        )
                        enter = step["enter"]
                if "raise" in (leave, enter):
                    outcome = "error"
                    raised = True
                else:
                    add(f"state.s{current}.exit_attempts", 1)
                    add(f"state.s{current}.exit_successes", int(leave))
                    if not leave:
                        add("machine.m.exit_fails", 1)
                    else:
                        add(f"state.s{target}.enter_attempts", 1)
                        add(f"state.s{target}.enter_successes", int(enter))
                        if enter:
                            after = target
                            add("machine.m.transitions", 1)
                        else:
                            add("machine.m.enter_fails", 1)
            add("machine.m.iterations", 1)
        elif target in ("unknown", "none"):
            # whether a refused state counts as an iteration isn't specified
            raised = True

        def act() -> Any:
            """One iteration."""
            try:
                args = [] if step["data"] is None else [dict(step["data"])]
                old, new = machine.run(*args)
                return (old.name, new.name)
            except (AssertionError, Oops):
                return "error"

        got = sched.alone(act, what) if step["apart"] else act()
        same(world.log, want, f"the handlers called in {what}")
        if outcome == "error":
            same(got, "error", f"the result of {what}")
            refused += 1
        else:
            same(got, (f"s{current}", f"s{after}"), f"the result of {what}")
            if after == current and target != current:
                refused += 1
        if after != current:
            moves += 1
        current = after
        with machine.data() as inside:
            same(dict(inside), data, f"the data after {what}")
        same(machine.current_state, f"s{current}", f"the state after {what}")
        for name, value in delta.items():
            sums[name] += value
        if world.env is not None and not raised:
            for name, value in sums.items():
                parts = name.split(".")
                if parts[0] == "state" and not specs[int(parts[1][1:])]["metrics"]:
                    continue
                ident = world.env.channel_registry.get_id(name)
                check(ident is not None, f"there is no channel {name}")
                same(
                    world.env.get_value(ident), value, f"{name} after {what}"
                )
    # whatever happened, other threads can go on
    world.plan = {"target": "same"}
    world.log = []
    sched.alone(machine.run, "an iteration by another thread")
    same(
        world.log,
        [("run", f"s{current}", dict(data))] if specs[current]["run"] else [],
        "the handlers called in the last iteration",
    )
    if refused:
        rec.label("refused")
    if raised:
        rec.label("raised")
    if world.env is not None:
        rec.label("metrics")
    rec.nontrivial(moves > 1 and refused > 0)


# -- two threads --------------------------------------------------------------

race_steps = st.fixed_dictionaries(
    {
        "leave": gen.weighted((4, st.just(True)), (1, st.just(False))),
        "enter": gen.weighted((4, st.just(True)), (1, st.just(False))),
        "data": st.one_of(
            st.none(), st.fixed_dictionaries({"a": st.integers(0, 9)})
        ),
        "edit": gen.weighted((3, st.just(False)), (1, st.just(True))),
    }
)
races = st.fixed_dictionaries(
    {
        "table": st.lists(st.integers(0, 3), min_size=4, max_size=4),
        "leave": st.lists(st.integers(0, 5), max_size=1),
        "enter": st.lists(st.integers(0, 5), max_size=1),
        "env": st.sampled_from([False, False, True]),
        "one": st.lists(race_steps, min_size=1, max_size=2),
        "two": st.lists(race_steps, min_size=1, max_size=2),
        "fine": st.sampled_from([False, False, True]),
        "picks": st.lists(
            st.floats(0, 1, exclude_max=True), min_size=16, max_size=16
        ),
    }
)


class Scene:
    """A machine whose states go where a table says."""

    def __init__(self, case: Any) -> None:
        self.env: Any = None
        if case["env"]:
            self.env = TelemetryEnvironment(
                512, metrics_rate=1.0, app_id_basis=0.5
            )
        self.log: List[Any] = []
        states = [self.state(num, case) for num in range(4)]
        self.machine = StateMachine("m", states, env=self.env)
        self.log = []

    def state(self, num: int, case: Any) -> State:
        """Make a state."""

        def run(data: Any) -> str:
            self.log.append(("run", num, data.get("a")))
            self.touch(data)
            return f"s{case['table'][num]}"

        def entering(prev: str, data: Any) -> bool:
            self.log.append(("enter", num, prev, data.get("a")))
            return num not in case["enter"] or not self.log[:-1]

        def leaving(following: str, data: Any) -> bool:
            self.log.append(("leave", num, following, data.get("a")))
            return num not in case["leave"]

        return State(
            f"s{num}", run, entering, leaving, self.env if num % 2 else None
        )

    @staticmethod
    def touch(data: Any) -> None:
        """Count something in the data."""
        value = data.get("n") or 0
        # looks at something of the library: a place to be interrupted
        assert State("x") != State("y")
        data["n"] = value + 1

    def edit(self) -> None:
        """Change the data from outside."""
        with self.machine.data() as data:
            self.touch(data)

    def observe(self) -> Dict[str, Any]:
        """Everything there is to see."""
        with self.machine.data() as data:
            result: Dict[str, Any] = {
                "state": self.machine.current_state,
                "data": dict(data),
                "calls": list(self.log),
            }
        if self.env is not None:
            registry = self.env.channel_registry
            for ident in range(registry.count()):
                name = registry.get_item(ident).name
                if name.startswith(("state.", "machine.")):
                    result[name] = self.env.get_value(ident)
        return result


def run_race(case: Any, rec: Rec) -> None:
    """Two threads iterate one machine."""

    def operations(which: str) -> Any:
        """Iterations of one thread."""

        def iteration(step: Any) -> Any:
            def call(scene: Scene) -> Any:
                data = step["data"]
                if step["edit"]:
                    return scene.edit()
                old, new = scene.machine.run(
                    None if data is None else dict(data)
                )
                return old.name, new.name

            return call

        return [iteration(x) for x in case[which]]

    count = sched.explore(
        lambda: Scene(case),
        operations("one"),
        operations("two"),
        lambda scene: scene.observe(),
        case["picks"],
        case["fine"],
        rec=rec,
        what="iterations of two threads",
    )
    rec.nontrivial(case["table"][0] != 0 and count > 5)


PROP = Prop(
    "C19",
    [
        Facet(
            "model",
            lambda: machines,
            run,
            9000,
            rule="machines of up to six states with handlers that agree, "
            "refuse, raise or direct to unknown states; non-trivial = more "
            "than one transition and a refusal",
        ),
        Facet(
            "threads",
            lambda: races,
            run_race,
            300,
            thorough=6000,
            rule="iterations by two threads, one interrupted at lines or "
            "bytecodes; non-trivial = the first state is left, more than five "
            "points",
        ),
    ],
    assumptions=[
        "names of states differ, enter and leave handlers return booleans",
        "an unknown state may be refused by an exception",
        "metrics aren't judged after a handler raised",
    ],
)
