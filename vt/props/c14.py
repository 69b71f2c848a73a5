"""C14: every command gets its answer and no command stops later ones."""

from __future__ import annotations

import copy
import json
import threading
from typing import Any, Dict, List, Tuple

from hypothesis import strategies as st
from vtelem.daemon.command_queue import CommandQueueDaemon
from vtelem.telemetry.environment import TelemetryEnvironment

from vt import gen, sched
from vt.core import Facet, Prop, Rec, check, same, short

KNOWN = ["alpha", "beta", "gamma"]
BEHAVIOURS = ["good", "good", "bad", "raise", "raise-odd", "nothing", "nest", "dirty"]
scalars = st.one_of(
    st.none(),
    st.booleans(),
    st.integers(),
    st.floats(allow_nan=False),
    st.text(max_size=6),
)
documents = st.recursive(
    scalars,
    lambda x: st.one_of(
        st.lists(x, max_size=3),
        st.dictionaries(st.text(max_size=5), x, max_size=3),
    ),
    max_leaves=6,
)
payload = st.dictionaries(
    st.one_of(st.sampled_from(["value", "command", "indent"]), st.text(max_size=4)),
    documents,
    max_size=3,
)
commands = gen.weighted(
    (
        6,
        st.builds(
            lambda n, d: {"command": n, "data": d}, st.sampled_from(KNOWN), payload
        ),
    ),
    (1, st.builds(lambda n: {"command": n}, st.sampled_from(KNOWN))),
    (
        1,
        st.builds(
            lambda n, d: {"command": n, "data": d},
            st.sampled_from(KNOWN),
            documents,
        ),
    ),
    (1, st.builds(lambda n: {"command": n}, documents)),
    (
        1,
        st.builds(
            lambda d: {"command": "help", "data": d},
            st.one_of(
                payload,
                st.builds(lambda x: {"command": x}, st.sampled_from(KNOWN)),
                st.builds(lambda x: {"command": x}, documents),
            ),
        ),
    ),
    (1, st.builds(lambda n: {"command": n, "data": {}}, st.text(max_size=8))),
    (2, documents),
)
cases = st.fixed_dictionaries(
    {
        "metrics": st.sampled_from([None, 1.0, 1.0]),
        "env": st.sampled_from([True, True, False]),
        "handlers": st.lists(
            st.tuples(
                st.sampled_from(KNOWN),
                st.sampled_from(BEHAVIOURS),
                st.sampled_from(["record", "record", "none", "raise"]),
            ),
            min_size=3,
            max_size=6,
        ),
        "commands": st.lists(
            st.tuples(
                commands,
                st.sampled_from(["record", "record", "record", "none", "raise"]),
                st.sampled_from(["queue", "queue", "queue", "execute"]),
            ),
            min_size=1,
            max_size=14,
        ),
        "early": st.integers(0, 3),
        "restart": st.booleans(),
    }
)


class Odd(Exception):
    """An error that can't even be described."""

    def __init__(self) -> None:
        super().__init__("odd")


def run(case: Any, rec: Rec) -> None:
    """A stream of commands."""
    env = None
    if case["env"]:
        env = TelemetryEnvironment(
            256, metrics_rate=case["metrics"], app_id_basis=0.5
        )
    daemon = CommandQueueDaemon("commands", env)
    calls: List[Tuple[int, Any]] = []
    per_handler: Dict[int, List[Tuple[bool, str]]] = {}
    table: Dict[str, List[Tuple[int, str]]] = {x: [] for x in KNOWN}
    nested: List[Any] = []

    def make_handler(num: int, how: str) -> Any:
        """A handler that behaves in some way."""

        def handler(data: Any) -> Any:
            calls.append((num, copy.deepcopy(dict(data))))
            check(data["no such key"] is None, "unknown keys don't read as None")
            data.pop("no such key", None)
            if how == "good":
                return True, f"good {num}"
            if how == "bad":
                return False, f"bad {num}"
            if how == "raise":
                raise ValueError(f"raised {num}")
            if how == "raise-odd":
                raise Odd()
            if how == "nothing":
                return None
            if how == "nest":
                if len(nested) < 3:
                    nested.append(num)
                    daemon.enqueue({"command": "tail", "data": {"num": num}})
                return True, f"good {num}"
            data["extra"] = {1, 2}
            data.clear()
            return True, f"good {num}"

        return handler

    def make_result(num: int, how: str) -> Any:
        """A callback of a handler."""
        if how == "none":
            return None

        def callback(good: bool, message: str) -> None:
            per_handler.setdefault(num, []).append((good, message))
            if how == "raise":
                raise KeyError("callback")

        return callback

    for num, (name, how, back) in enumerate(case["handlers"]):
        daemon.register_consumer(
            name, make_handler(num, how), make_result(num, back), f"help {num}"
        )
        table[name].append((num, how))
    daemon.register_consumer(
        "tail", lambda data: (calls.append((-1, dict(data))), (True, "tail"))[1]
    )

    answers: Dict[int, List[Tuple[bool, str]]] = {}

    def make_answer(num: int, how: str) -> Any:
        """The callback of a command."""
        if how == "none":
            return None

        def callback(good: bool, message: str) -> None:
            answers.setdefault(num, []).append((good, message))
            if how == "raise":
                raise RuntimeError("callback")

        return callback

    started = False
    executed: Dict[int, Any] = {}
    for num, (command, how, via) in enumerate(case["commands"]):
        if not started and (num >= case["early"] or via == "execute"):
            check(daemon.start(), "the daemon doesn't start")
            started = True
        command = copy.deepcopy(command)
        if via == "execute":
            executed[num] = execute(daemon, command)
        else:
            daemon.enqueue(command, make_answer(num, how))
    if not started:
        check(daemon.start(), "the daemon doesn't start")
    final = threading.Event()
    daemon.enqueue({"command": "tail"}, lambda *_: final.set())
    check(
        final.wait(20),
        "a later command is never executed after: "
        + short([x[0] for x in case["commands"]]),
        "stopped",
    )
    check(daemon.stop(), "the daemon can't be stopped")
    judge(case, daemon, env, table, calls, per_handler, answers, executed, rec)


def execute(daemon: Any, command: Any) -> Any:
    """Execute in a thread so that a failure of the daemon isn't a hang."""
    out: List[Any] = []
    thread = threading.Thread(
        target=lambda: out.append(daemon.execute(command)), daemon=True
    )
    thread.start()
    thread.join(20)
    check(bool(out), f"executing {short(command)} never returns", "stopped")
    return out[0]


def judge(
    case: Any,
    daemon: Any,
    env: Any,
    table: Any,
    calls: Any,
    per_handler: Any,
    answers: Any,
    executed: Any,
    rec: Rec,
) -> None:
    """Compare what happened with what should have."""
    want_calls: List[Any] = []
    want_results: Dict[int, List[bool]] = {}
    counts = {"success": 0, "failure": 0, "rejected": 0}
    tricky = 0
    for num, (command, how, via) in enumerate(case["commands"]):
        outcomes: List[Any] = []
        said: List[Any] = []
        name = command.get("command") if isinstance(command, dict) else None
        if isinstance(name, str) and name == "help":
            outcomes = [help_outcome(command, table)]
            said = [help_answer(command, table) if outcomes[0] else None]
            counts["success" if outcomes[0] else "failure"] += 1
        elif isinstance(name, str) and (table.get(name) or name == "tail"):
            data = command.get("data")
            if name == "tail":
                outcomes = [True]
                said = ["tail"]
                counts["success"] += 1
            else:
                current = dict(data) if isinstance(data, dict) else {}
                dirty = False
                for ident, behaviour in table[name]:
                    good = behaviour in ("good", "nest", "dirty")
                    outcomes.append(good)
                    said.append(
                        f"{'good' if good else 'bad'} {ident}"
                        if good or behaviour == "bad"
                        else None
                    )
                    # what a handler does to the data is its own business
                    want_calls.append((ident, None if dirty else dict(current)))
                    dirty = dirty or behaviour == "dirty"
                    counts["success" if good else "failure"] += 1
                    tricky += behaviour.startswith("raise")
                    back = case["handlers"][ident][2]
                    if back != "none":
                        want_results.setdefault(ident, []).append(good)
        else:
            outcomes = [False]
            said = [None]
            counts["rejected"] += 1
            tricky += 1
        if via == "execute":
            got = executed[num]
            same(
                bool(got[0]),
                # a handler that runs later may have replaced the first answer
                got[0] if len(outcomes) > 1 else outcomes[0],
                f"result of executing {short(command)}",
            )
            if got[0]:
                check(True in outcomes, f"{short(command)} reports success")
            check(isinstance(got[1], str), f"message is {got[1]!r}")
            if len(outcomes) == 1:
                agrees(got[1], said[0], command)
        elif how != "none":
            got = answers.get(num, [])
            same(
                [bool(x[0]) for x in got],
                outcomes,
                f"results reported for {short(command)}",
            )
            for (good, message), text in zip(got, said):
                check(isinstance(good, bool), f"the result is {good!r}")
                check(isinstance(message, str), f"the message is {message!r}")
                agrees(message, text, command)
    # what nested commands do is checked by the count of calls
    seen = [x for x in calls if x[0] != -1]
    for num, want in enumerate(want_calls[: len(seen)]):
        if want[1] is None:
            seen[num] = (seen[num][0], None)
    same(seen, want_calls, "calls of the handlers")
    tails = [x for x in calls if x[0] == -1]
    nests = len([1 for x in want_calls if case["handlers"][x[0]][1] == "nest"])
    own = len(
        [
            1
            for x in case["commands"]
            if isinstance(x[0], dict) and x[0].get("command") == "tail"
        ]
    )
    extra = len(tails) - own - 1
    same(extra, min(nests, 3), "commands that were sent by handlers and ran")
    for ident, want in want_results.items():
        got = per_handler.get(ident, [])
        same([bool(x[0]) for x in got], want, f"results of handler {ident}")
        text = case["handlers"][ident][1]
        for _, message in got:
            if text in ("good", "bad"):
                same(message, f"{text} {ident}", "message of a handler")
    if env is not None and env.metrics is not None:
        total = len(case["commands"]) + 1 + extra
        same(env.get_metric("commands.command_count"), total, "command_count")
        for name, count in counts.items():
            if name == "success":
                count += 1 + extra
            same(
                env.get_metric(f"commands.{name}_count"), count, f"{name}_count"
            )
    rec.count("commands", len(case["commands"]))
    rec.count("tricky", tricky)
    rec.nontrivial(tricky and counts["success"])


def agrees(message: str, want: Any, command: Any) -> None:
    """Whether a message is the expected one (text, JSON, or anything)."""
    if isinstance(want, str):
        same(message, want, f"message of {short(command)}")
    elif want is not None:
        got = json.loads(message)
        # its own text is the package's business
        if "help" in got and "help" in want:
            want = {**want, "help": got["help"]}
        same(got, want, f"message of {short(command)}")


def help_answer(command: Any, table: Any) -> Any:
    """What asking for help gives."""
    every = {"help": [], "tail": [""]}
    for name, handlers in table.items():
        if handlers:
            every[name] = [f"help {num}" for num, _ in handlers]
    data = command.get("data")
    asked = data.get("command") if isinstance(data, dict) else None
    return every if asked is None else {asked: every[asked]}


def help_outcome(command: Any, table: Any) -> bool:
    """Whether asking for help succeeds."""
    data = command.get("data")
    asked = data.get("command") if isinstance(data, dict) else None
    if asked is None:
        return True
    return isinstance(asked, str) and (
        asked in ("help", "tail") or bool(table.get(asked))
    )


# -- several callers ----------------------------------------------------------

outcome = st.sampled_from(["good", "good", "bad", "raise", "unknown", "odd"])
callers = st.fixed_dictionaries(
    {
        "first": outcome,
        "second": outcome,
        "env": st.booleans(),
        "waiting": st.lists(outcome, max_size=3),
        "picks": st.lists(st.floats(0, 0.999), min_size=10, max_size=10),
    }
)
crowds = st.fixed_dictionaries(
    {
        "env": st.booleans(),
        "threads": st.lists(
            st.lists(outcome, min_size=1, max_size=12), min_size=2, max_size=6
        ),
    }
)


def command_of(how: str, tag: str) -> Any:
    """A command that can be told apart."""
    if how == "odd":
        return [tag]
    return {"command": "nothing" if how == "unknown" else how, "data": {"t": tag}}


class Service:
    """A daemon that answers."""

    def __init__(self, with_env: bool) -> None:
        self.env = None
        if with_env:
            self.env = TelemetryEnvironment(
                256, metrics_rate=1.0, app_id_basis=0.5
            )
        self.daemon = CommandQueueDaemon("commands", self.env)
        self.calls: List[str] = []
        for how in ("good", "bad", "raise"):
            self.daemon.register_consumer(how, self.handler(how))
        check(self.daemon.start(), "the daemon doesn't start")

    def handler(self, how: str) -> Any:
        """A handler that answers with what it was told."""

        def handle(data: Any) -> Any:
            self.calls.append(data["t"])
            if how == "raise":
                raise ValueError(data["t"])
            return how == "good", data["t"]

        return handle

    def execute(self, how: str, tag: str) -> Any:
        """One command."""
        return self.daemon.execute(command_of(how, tag))

    def judge(self, how: str, tag: str, got: Any, what: str) -> None:
        """The answer of a command is its own."""
        check(
            isinstance(got, tuple) and len(got) == 2 and got[0] != "raised",
            f"{what}: executing gives {got}",
        )
        same(bool(got[0]), how == "good", f"{what}: outcome of a {how} command")
        if how in ("good", "bad"):
            same(got[1], tag, f"{what}: message of a {how} command")
        elif how == "raise":
            check(tag in got[1], f"{what}: {tag} raised, reported is {got[1]!r}")
        else:
            check(bool(got[1]), f"{what}: refused without a message")

    def finish(self, sent: Dict[str, str], what: str) -> None:
        """Every command ran once."""
        final = threading.Event()
        self.daemon.enqueue(
            {"command": "good", "data": {"t": "end"}}, lambda *_: final.set()
        )
        check(final.wait(20), f"{what}: later commands are never executed")
        check(self.daemon.stop(), "the daemon can't be stopped")
        ran = [x for x, how in sent.items() if how in ("good", "bad", "raise")]
        same(sorted(self.calls), sorted(ran + ["end"]), f"{what}: commands run")
        if self.env is None:
            return
        counts = {
            "command": len(sent) + 1,
            "success": len([x for x in sent.values() if x == "good"]) + 1,
            "failure": len([x for x in sent.values() if x in ("bad", "raise")]),
            "rejected": len([x for x in sent.values() if x in ("unknown", "odd")]),
        }
        for name, count in counts.items():
            same(
                self.env.get_metric(f"commands.{name}_count"),
                count,
                f"{what}: {name}_count",
            )


def run_callers(case: Any, rec: Rec) -> None:
    """Two threads execute commands, one is interrupted anywhere."""
    service = Service(case["env"])
    total = sched.points(lambda: service.execute(case["first"], "a"))
    check(service.daemon.stop(), "the daemon can't be stopped")
    for spot in sorted({int(x * total) for x in case["picks"]}):
        service = Service(case["env"])
        answers: List[Any] = []
        sent = {"a": case["first"], "b": case["second"]}
        for num, how in enumerate(case["waiting"]):
            sent[f"w{num}"] = how
            service.daemon.enqueue(
                command_of(how, f"w{num}"),
                lambda good, message, num=num, how=how: answers.append(
                    (num, how, (good, message))
                ),
            )
        one, two, where, _ = sched.preempt(
            lambda: service.execute(case["first"], "a"),
            lambda: service.execute(case["second"], "b"),
            spot,
        )
        what = f"interrupted at {where}"
        service.judge(case["first"], "a", one, what)
        service.judge(case["second"], "b", two, what)
        service.finish(sent, what)
        same(
            [x[0] for x in answers],
            list(range(len(case["waiting"]))),
            f"{what}: answers of waiting commands",
        )
        for num, how, got in answers:
            service.judge(how, f"w{num}", got, what)
        rec.count("schedules")
    rec.nontrivial(total > 1 and case["first"] != case["second"])


def run_crowd(case: Any, rec: Rec) -> None:
    """Many threads execute commands at once."""
    service = Service(case["env"])
    sent: Dict[str, str] = {}
    got: Dict[str, Any] = {}
    barrier = threading.Barrier(len(case["threads"]))

    def work(num: int) -> None:
        """One of them."""
        barrier.wait(20)
        for pos, how in enumerate(case["threads"][num]):
            got[f"{num}-{pos}"] = service.execute(how, f"{num}-{pos}")

    threads = []
    for num, hows in enumerate(case["threads"]):
        for pos, how in enumerate(hows):
            sent[f"{num}-{pos}"] = how
        threads.append(threading.Thread(target=work, args=(num,), daemon=True))
    for thread in threads:
        thread.start()
    for thread in threads:
        thread.join(30)
        check(not thread.is_alive(), "executing commands never returns")
    for tag, how in sent.items():
        service.judge(how, tag, got.get(tag), f"with {len(threads)} callers")
    for num, hows in enumerate(case["threads"]):
        ran = [x for x in service.calls if x.startswith(f"{num}-")]
        want = [
            f"{num}-{pos}"
            for pos, how in enumerate(hows)
            if how in ("good", "bad", "raise")
        ]
        same(ran, want, f"order of the commands of caller {num}")
    service.finish(sent, f"with {len(threads)} callers")
    rec.nontrivial(len(sent) > 4)


PROP = Prop(
    "C14",
    [
        Facet(
            "streams",
            lambda: cases,
            run,
            3000,
            rule="streams of commands and handlers of all behaviours; "
            "non-trivial = failing handlers or malformed commands, and success",
        ),
        Facet(
            "callers",
            lambda: callers,
            run_callers,
            150,
            rule="two commands executed by two threads, one interrupted at "
            "picked lines; non-trivial = different outcomes",
        ),
        Facet(
            "crowd",
            lambda: crowds,
            run_crowd,
            300,
            rule="several threads that execute commands; non-trivial = more "
            "than four commands",
        ),
    ],
    more=2,
    assumptions=[
        "handlers raise subclasses of Exception",
        "a command with several handlers reports each handler's outcome",
    ],
)
