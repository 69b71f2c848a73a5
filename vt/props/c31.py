"""C31: UDP clients are served as managed and never disturb each other."""

from __future__ import annotations

import json
import socket
from collections import defaultdict
from typing import Any, Dict, List, Optional, Set, Tuple

from hypothesis import strategies as st
from vtelem.classes.udp_client_manager import UdpClientManager
from vtelem.daemon import DaemonState
from vtelem.daemon.command_queue import CommandQueueDaemon
from vtelem.enums.primitive import Primitive
from vtelem.factories.udp_client_manager import create_udp_client_commander
from vtelem.mtu import Host
from vtelem.stream.writer import default_writer
from vtelem.telemetry.environment import TelemetryEnvironment

from vt import gen, sched
from vt.core import Facet, Prop, Rec, check, same, short
from vt.net import scope, until, wait
from vt.props.c24 import local

PROBE = 0  # not a type of telemetry
GONE = 3  # frames after which a client whose receiver is gone was noticed


class Source:
    """Makes frames."""

    def __init__(self) -> None:
        self.env = TelemetryEnvironment(1400, app_id_basis=0.5)
        self.chans = [
            self.env.add_channel(f"c{x}", Primitive.UINT64, 0.0)
            for x in range(100)
        ]
        self.number = 0

    def frame(self, amount: int) -> Any:
        """A new frame with some values."""
        for num, chan in enumerate(self.chans):
            self.env.set_channel_rate(chan, 0.0 if num < amount else 1e9)
        for chan in self.chans[:amount]:
            self.number += 1
            self.env.set_now(chan, self.number)
        self.env.advance_time(1.0)
        self.env.dispatch_now(should_log=False)
        frame = self.env.frame_queue.get(timeout=5)
        check(self.env.frame_queue.empty(), "several frames")
        return frame


def sized(frame: Any) -> bytes:
    """What a client gets for a frame."""
    raw = bytes(frame.raw[0])
    return len(raw).to_bytes(4, "big") + raw


class Receiver:
    """Somebody who listens."""

    def __init__(self, stack: Any, taken: Set[int]) -> None:
        self.address = local()
        while True:
            self.sock = stack.socket(socket.AF_INET, socket.SOCK_DGRAM)
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 20)
            self.sock.bind((self.address, 0))
            self.port = self.sock.getsockname()[1]
            # a closed receiver's client must not find somebody else
            if self.port not in taken:
                break
        taken.add(self.port)
        self.sock.setblocking(False)
        self.open = True
        self.got: List[Tuple[bytes, Tuple[str, int]]] = []

    @property
    def host(self) -> Host:
        """Where this is."""
        return Host(self.address, self.port)

    def close(self) -> None:
        """Stop listening."""
        self.pump()
        self.sock.close()
        self.open = False

    def pump(self) -> None:
        """Take what arrived."""
        try:
            while self.open:
                self.got.append(self.sock.recvfrom(70000))
        except BlockingIOError:
            pass

    def take(self) -> Dict[str, List[bytes]]:
        """What arrived since, by its sender, without probes."""
        self.pump()
        got, self.got = self.got, []
        result: Dict[str, List[bytes]] = defaultdict(list)
        for data, sender in got:
            if len(data) > 14 and data[6] == PROBE:
                continue
            result[f"{sender[0]}:{sender[1]}"].append(data)
        return dict(result)


class Sink:
    """A stream of another kind."""

    def __init__(self, fail: int) -> None:
        self.fail = fail
        self.got: List[bytes] = []
        self.name = "sink"

    def write(self, data: bytes) -> int:
        """Take a frame, or fail."""
        if self.fail == len(self.got):
            raise OSError(32, "broken")
        self.got.append(bytes(data))
        return len(data)

    def flush(self) -> None:
        """Nothing to do."""


# -- histories ----------------------------------------------------------------

bad_adds = st.sampled_from(
    [
        {},
        {"host": "here"},
        {"port": "here"},
        {"host": "here", "port": 70000},
        {"host": "here", "port": -1},
        {"host": "here", "port": None},
        {"host": "here", "port": "text"},
        {"host": "here", "port": [1]},
        {"host": None, "port": 4000},
        {"host": 5, "port": 4000},
        {"host": ["here"], "port": 4000},
    ]
)
bad_commands = st.sampled_from(
    [
        None,
        {},
        {"operation": None},
        {"operation": "list "},
        {"operation": "Add"},
        {"operation": ["list"]},
        {"operation": {}},
        {"operation": 1},
        {"operation": "remove"},
        {"operation": "remove", "id": None},
        {"operation": "remove", "id": -1},
        {"operation": "remove", "id": [0]},
        {"operation": "remove", "id": "x"},
        {"operation": "list", "id": None},
        {"operation": "list", "id": 4096},
        {"operation": "list", "id": {}},
    ]
)
small = st.integers(0, 7)
history_steps = gen.weighted(
    (4, st.tuples(st.just("receiver"))),
    (4, st.tuples(st.just("add"), small, st.booleans())),
    (2, st.tuples(st.just("many"), st.lists(small, max_size=3))),
    (6, st.tuples(st.just("frames"), st.lists(st.integers(1, 100), min_size=1, max_size=4))),
    (3, st.tuples(st.just("remove"), small, st.booleans())),
    (1, st.tuples(st.just("unknown"), st.sampled_from([-1, 99, 4096]), st.booleans())),
    (1, st.tuples(st.just("foreign"), small, st.booleans())),
    (2, st.tuples(st.just("list"))),
    (1, st.tuples(st.just("list-one"), small)),
    (2, st.tuples(st.just("gone"), small)),
    (2, st.tuples(st.just("stream"), st.sampled_from([-1, -1, 0, 1, 3]))),
    (1, st.tuples(st.just("unstream"), small)),
    (1, st.tuples(st.just("add-gone"), small, st.booleans())),
    (1, st.tuples(st.just("remove-all"))),
    (1, st.tuples(st.just("bad-add"), bad_adds, small)),
    (1, st.tuples(st.just("bad"), bad_commands)),
    (1, st.tuples(st.just("restart"))),
)
histories = st.fixed_dictionaries(
    {
        "threads": st.booleans(),
        "env": st.booleans(),
        "steps": st.lists(history_steps, min_size=4, max_size=26),
    }
)


class World:
    """A manager, its clients and what they have to see."""

    def __init__(self, case: Any, rec: Rec, stack: Any) -> None:
        self.rec = rec
        self.stack = stack
        self.threads = case["threads"]
        env = None
        if case["env"]:
            env = TelemetryEnvironment(256, metrics_rate=1.0, app_id_basis=0.5)
        self.source = Source()
        self.writer, self.queue = default_writer("writer", env=env)
        self.manager = UdpClientManager(self.writer)
        stack.callback(self.manager.remove_all)
        self.daemon = CommandQueueDaemon("command", env)
        create_udp_client_commander(self.manager, self.daemon)
        if self.threads:
            for daemon in (self.writer, self.daemon):
                self.start(daemon)
                stack.callback(daemon.stop)
        self.taken: Set[int] = set()
        self.receivers: List[Receiver] = []
        # client identifier -> receiver, frames since it is gone, name
        self.clients: Dict[int, Dict[str, Any]] = {}
        self.socks: List[Any] = []
        self.used: Set[int] = set()
        self.sinks: Dict[int, Dict[str, Any]] = {}

    @staticmethod
    def start(daemon: Any) -> None:
        """Start a daemon."""
        check(daemon.start(), f"{daemon.name} can't be started")
        wait(
            lambda: daemon.get_state() == DaemonState.RUNNING,
            f"{daemon.name} to run",
        )

    def command(self, data: Any) -> Tuple[bool, str]:
        """Run a command."""
        out: List[Tuple[bool, str]] = []
        command = {"command": "udp"}
        if data is not None:
            command["data"] = data

        def result(okay: bool, text: str) -> None:
            """Take the result."""
            out.append((okay, text))

        if self.threads:
            self.daemon.enqueue(command, result)
            check(until(lambda: out), f"{short(data)} never gives a result")
        else:
            self.daemon.handle((command, result))
        same(len(out), 1, f"results of the command {short(data)}")
        okay, text = out[0]
        check(
            isinstance(okay, bool) and isinstance(text, str),
            f"{short(data)} gives {out[0]!r}",
        )
        return okay, text

    # the state

    def listed(self) -> Dict[int, str]:
        """The clients according to the 'list' command."""
        okay, text = self.command({"operation": "list"})
        check(okay, f"listing clients fails: {text}")
        return {int(x): y for x, y in json.loads(text).items()}

    def settle(self) -> None:
        """Forget clients whose receiver is gone and which were dropped."""
        active = set(self.manager.clients)
        for ident, entry in list(self.clients.items()):
            if ident not in active:
                check(
                    not entry["to"].open,
                    f"client {ident} was dropped, nothing was wrong with it",
                )
                del self.clients[ident]
                self.rec.label("dropped")
                self.closed(entry)
            elif not entry["to"].open:
                check(
                    entry["failed"] < GONE,
                    f"client {ident} is still served {entry['failed']} frames "
                    "after its receiver is gone",
                )
        same(active, set(self.clients), "active clients")

    def closed(self, entry: Dict[str, Any]) -> None:
        """A client's socket isn't used anymore."""
        same(entry["sock"].fileno(), -1, "socket of a client that is gone")

    def look(self) -> None:
        """The listed clients are the active ones."""
        self.settle()
        got = self.listed()
        same(set(got), set(self.clients), "clients listed")
        for ident, name in got.items():
            entry = self.clients[ident]
            if entry["name"] is None:
                entry["name"] = name
            same(name, entry["name"], f"name of client {ident}")
        same(len(set(got.values())), len(got), "different names of clients")

    # the operations

    def born(self, ident: int, receiver: Receiver, mtu: Any) -> None:
        """A client was added."""
        check(isinstance(ident, int), f"identifier {ident!r}")
        check(ident not in self.used, f"identifier {ident} is used again")
        check(isinstance(mtu, int) and mtu > 0, f"an MTU of {mtu!r}")
        self.used.add(ident)
        check(ident in self.manager.clients, f"client {ident} isn't there")
        self.clients[ident] = {
            "to": receiver,
            "failed": 0,
            "name": None,
            "sock": self.manager.clients[ident][0],
        }
        self.rec.count("clients")

    def receiver(self, pick: int) -> Optional[Receiver]:
        """A receiver that is there."""
        there = [x for x in self.receivers if x.open]
        return there[pick % len(there)] if there else None

    def add(self, pick: int, command: bool) -> None:
        """Add a client."""
        to = self.receiver(pick)
        if to is None:
            return
        if not command:
            ident, mtu = self.manager.add_client(to.host)
            self.born(ident, to, mtu)
            return
        okay, text = self.command(
            {"operation": "add", "host": to.address, "port": to.port}
        )
        check(okay, f"adding a client fails: {text}")
        new = set(self.manager.clients) - self.used
        same(len(new), 1, "new clients")
        ident = new.pop()
        self.born(ident, to, 1)
        name = self.listed()[ident]
        check(
            f"'{ident}'" in text and f"({name})" in text,
            f"{name} with identifier {ident} is reported as {text!r}",
        )

    def add_gone(self, pick: int, command: bool) -> None:
        """Add a client nobody listens to."""
        there = [x for x in self.receivers if not x.open]
        if not there:
            return
        to = there[pick % len(there)]
        if command:
            okay, text = self.command(
                {"operation": "add", "host": to.address, "port": to.port}
            )
            check(okay, f"adding a client fails: {text}")
            new = set(self.manager.clients) - self.used
            same(len(new), 1, "new clients")
            self.born(new.pop(), to, 1)
        else:
            self.born(self.manager.add_client(to.host)[0], to, 1)
        self.rec.label("added-gone")

    def many(self, picks: List[int]) -> None:
        """Add several."""
        hosts = []
        for pick in picks:
            to = self.receiver(pick)
            if to is not None and to not in hosts:
                hosts.append(to)
        got = self.manager.add_clients([x.host for x in hosts])
        same(set(got), {x.host for x in hosts}, "hosts that were added")
        for to in hosts:
            self.born(*(got[to.host][0], to, got[to.host][1]))

    def drop(self, ident: int) -> None:
        """The model of a removed client."""
        entry = self.clients.pop(ident)
        check(ident not in self.manager.clients, f"client {ident} is still there")
        self.closed(entry)

    def remove(self, pick: int, command: bool) -> None:
        """Remove a client."""
        self.settle()
        if not self.clients:
            return
        ident = sorted(self.clients)[pick % len(self.clients)]
        if command:
            okay, text = self.command({"operation": "remove", "id": ident})
            check(okay, f"removing client {ident} fails: {text}")
        else:
            self.manager.remove_client(ident)
        self.drop(ident)

    def unknown(self, ident: int, command: bool) -> None:
        """Remove somebody who isn't there."""
        if command:
            okay, text = self.command({"operation": "remove", "id": ident})
            check(not okay, f"removing unknown client {ident}: {text}")
        else:
            self.manager.remove_client(ident)

    def foreign(self, pick: int, command: bool) -> None:
        """Remove a stream of another kind as if it were a client."""
        if self.sinks:
            self.unknown(sorted(self.sinks)[pick % len(self.sinks)], command)
            self.rec.label("foreign")

    def list_one(self, pick: int) -> None:
        """List one client."""
        self.look()
        if self.clients:
            ident = sorted(self.clients)[pick % len(self.clients)]
            okay, text = self.command({"operation": "list", "id": ident})
            check(okay, f"listing client {ident} fails: {text}")
            got = {int(x): y for x, y in json.loads(text).items()}
            same(got, {ident: self.clients[ident]["name"]}, "client listed")

    def gone(self, pick: int) -> None:
        """A receiver disappears."""
        self.collect([])
        to = self.receiver(pick)
        if to is not None:
            to.close()
            if any(x["to"] is to for x in self.clients.values()):
                self.rec.label("gone")

    def stream(self, fail: int) -> None:
        """A stream of another kind."""
        sink = Sink(fail)
        ident = self.writer.add_stream(sink)  # type: ignore
        check(ident not in self.used, f"identifier {ident} is used again")
        self.used.add(ident)
        self.sinks[ident] = {"sink": sink, "want": [], "live": True}

    def unstream(self, pick: int) -> None:
        """Remove a stream of another kind."""
        if self.sinks:
            ident = sorted(self.sinks)[pick % len(self.sinks)]
            live = self.sinks[ident]["live"]
            same(self.writer.remove_stream(ident), live, "removing a stream")
            self.sinks[ident]["live"] = False

    def frames(self, amounts: List[int]) -> None:
        """Write frames."""
        sent = []
        for amount in amounts:
            frame = self.source.frame(amount)
            want = sized(frame)
            sent.append(want)
            for entry in self.sinks.values():
                if entry["live"]:
                    entry["live"] = len(entry["want"]) != entry["sink"].fail
                    if entry["live"]:
                        entry["want"].append(want)
            for entry in self.clients.values():
                if not entry["to"].open:
                    entry["failed"] += 1
            if self.threads:
                self.queue.put(frame)
            else:
                self.writer.handle(frame)
        if self.threads:
            alive = self.writer.thread
            wait(lambda: not self.queue.unfinished_tasks, "frames to be written")
            check(alive is not None and alive.is_alive(), "the writer ended")
        self.collect(sent)

    def collect(self, sent: List[bytes]) -> None:
        """What everybody got."""
        self.settle()
        for ident, entry in self.sinks.items():
            same(entry["sink"].got, entry["want"], "frames of another stream")
            same(
                ident in self.writer.streams,
                entry["live"],
                "whether another stream is still written to",
            )
        for to in self.receivers:
            if not to.open:
                continue
            mine = [x for x in self.clients.values() if x["to"] is to]
            want = len(mine) * len(sent)
            until(lambda: (to.pump(), len(to.got) >= want)[1], 0.0 if not want else 5)
            got = to.take()
            if not sent:
                same(got, {}, "telemetry that wasn't sent")
                continue
            same(
                len(got),
                len(mine),
                "clients a receiver got telemetry from",
            )
            for name, data in got.items():
                same(data, sent, f"datagrams of client {name}")
                if len(sent) > 1:
                    self.rec.count("sequences")
            known = {x["name"] for x in mine} - {None}
            check(
                known <= set(got),
                f"clients {known - set(got)} sent nothing, {set(got)} did",
            )
            for ident, name in self.listed().items():
                if ident in self.clients and self.clients[ident] in mine:
                    self.clients[ident]["name"] = name
                    check(
                        name in got,
                        f"client {ident} is listed as {name}, telemetry "
                        f"comes from {sorted(got)}",
                    )

    def bad_add(self, data: Any, pick: int) -> None:
        """An incomplete or invalid client."""
        before = set(self.manager.clients)
        streams = set(self.writer.streams)
        to = self.receiver(pick)
        command: Dict[str, Any] = {"operation": "add"}
        for key, value in data.items():
            if value == "here":
                if to is None:
                    return
                value = to.address if key == "host" else to.port
            command[key] = value
        okay, text = self.command(command)
        check(not okay, f"{short(command)} succeeds: {text}")
        same(set(self.manager.clients), before, "clients after a failed command")
        same(set(self.writer.streams), streams, "streams after a failed command")

    def bad(self, data: Any) -> None:
        """A command that can't be run."""
        okay, text = self.command(data)
        check(not okay, f"{short(data)} succeeds: {text}")

    def restart(self) -> None:
        """Start the writer again."""
        if self.threads:
            check(self.writer.stop(), "the writer can't be stopped")
            self.start(self.writer)

    def remove_all(self) -> None:
        """Remove all clients."""
        self.settle()
        self.manager.remove_all()
        for ident in list(self.clients):
            self.drop(ident)
        same(set(self.manager.clients), set(), "clients after removing all")

    def step(self, step: Any) -> None:
        """Run one step."""
        kind = step[0]
        if kind == "receiver":
            if len(self.receivers) < 8:
                self.receivers.append(Receiver(self.stack, self.taken))
        elif kind == "list":
            self.look()
        else:
            getattr(self, kind.replace("-", "_"))(*step[1:])


def run_history(case: Any, rec: Rec) -> None:
    """Clients are served as the model says."""
    with scope() as stack:
        world = World(case, rec, stack)
        world.step(["receiver"])
        for step in case["steps"]:
            world.step(step)
        world.frames([3, 1])
        world.look()
        rec.count("operations", len(case["steps"]))
        rec.nontrivial(
            len(world.used) >= 2
            and any(x[0] == "frames" for x in case["steps"])
        )
        world.remove_all()
        for to in world.receivers:
            to.take()
        world.frames([1])


# -- two at a time ------------------------------------------------------------

SKIP = (  # encoding of frames
    "channel/",
    "enums/",
    "frame/",
    "classes/byte_buffer",
    "classes/time_entity",
    "classes/type_primitive",
    "classes/user_enum",
    "daemon/",
    "mtu",
)
KINDS = [
    "frame",
    "remove-good",
    "remove-dying",
    "remove-all",
    "add",
    "add-command",
    "add-dead",
    "add-dead-command",
    "remove-command",
    "list",
    "sink-fails",
]
races = st.fixed_dictionaries(
    {
        "first": st.sampled_from(KINDS),
        "second": st.sampled_from(KINDS + ["frame"] * 5),
        "order": st.permutations(["good", "dying", "other", "sink"]),
        "failed": st.integers(0, 2),
        "at": st.lists(st.floats(0, 0.999), min_size=6, max_size=12),
    }
)


class Arena:
    """Some clients, one of which is about to fail."""

    def __init__(self, case: Any, stack: Any) -> None:
        self.source = Source()
        self.writer, _ = default_writer("writer")
        self.manager = UdpClientManager(self.writer)
        stack.callback(self.manager.remove_all)
        self.daemon = CommandQueueDaemon("command")
        create_udp_client_commander(self.manager, self.daemon)
        taken: Set[int] = set()
        self.spots = {x: Receiver(stack, taken) for x in case["order"] if x != "sink"}
        self.spots["new"] = Receiver(stack, taken)
        self.idents: Dict[str, int] = {}
        self.socks: Dict[str, Any] = {}
        self.sink = Sink(-1)
        for name in case["order"]:
            if name == "sink":
                self.sink_ident = self.writer.add_stream(self.sink)  # type: ignore
                continue
            ident = self.manager.add_client(self.spots[name].host)[0]
            self.idents[name] = ident
            self.socks[name] = self.manager.clients[ident][0]
        self.spots["dying"].close()
        for _ in range(case["failed"]):
            self.writer.handle(self.source.frame(2))
        for spot in self.spots.values():
            spot.take()
        self.frame = self.source.frame(3)
        self.sent = sized(self.frame)
        self.added: List[int] = []

    def command(self, data: Any) -> Tuple[bool, str]:
        """Run a command."""
        out: List[Any] = []
        self.daemon.handle(
            ({"command": "udp", "data": data}, lambda x, y: out.append((x, y)))
        )
        return out[0]

    def run(self, kind: str) -> Any:
        """One operation."""
        if kind == "frame":
            return self.writer.handle(self.frame)
        if kind == "remove-good":
            return self.manager.remove_client(self.idents["good"])
        if kind == "remove-dying":
            return self.manager.remove_client(self.idents["dying"])
        if kind == "remove-all":
            return self.manager.remove_all()
        if kind == "add":
            self.added.append(self.manager.add_client(self.spots["new"].host)[0])
            return None
        if kind == "add-command":
            host = self.spots["new"].host
            return self.command(
                {"operation": "add", "host": host.address, "port": host.port}
            )
        if kind == "add-dead":
            self.manager.add_client(self.spots["dying"].host)
            return None
        if kind == "add-dead-command":
            host = self.spots["dying"].host
            return self.command(
                {"operation": "add", "host": host.address, "port": host.port}
            )
        if kind == "remove-command":
            return self.command({"operation": "remove", "id": self.idents["good"]})
        if kind == "sink-fails":
            return self.writer.remove_failed(self.sink_ident, "sink")
        return self.command({"operation": "list"})


def run_race(case: Any, rec: Rec) -> None:
    """Two operations at once leave what one after the other leaves."""
    first, second = case["first"], case["second"]
    if first == second == "frame" or {first, second} <= {
        "add-command",
        "add-dead-command",
        "remove-command",
        "list",
    }:
        return  # there is one writer and one command queue
    with scope() as stack:
        arena = Arena(case, stack)
        total = sched.points(lambda: arena.run(first), skip=SKIP)
    for spot in sorted({int(x * total) for x in case["at"]}):
        with scope() as stack:
            compete(Arena(case, stack), first, second, spot, rec)
    rec.nontrivial(True)


def compete(arena: Arena, first: str, second: str, spot: int, rec: Rec) -> None:
    """One schedule."""
    one, two, where, waited = sched.preempt(
        lambda: arena.run(first), lambda: arena.run(second), spot, skip=SKIP
    )
    what = f"{second} while {first} is at {where}"
    rec.count("schedules")
    if waited:
        rec.count("second-waited")
    ops = {first, second}
    for kind, out in ((first, one), (second, two)):
        check(
            not (isinstance(out, tuple) and out[0] == "raised"),
            f"{what}: {kind} raises {out}",
        )
        if kind in ("add-command", "add-dead-command", "list"):
            check(out[0], f"{what}: {kind} fails: {out[1]}")
        if kind == "remove-command":
            # may be gone already
            check(
                out[0] or ops & {"remove-good", "remove-all"},
                f"{what}: {kind} fails: {out[1]}",
            )
    maybe: Set[str] = set()  # may be removed, or be removed before the frame
    dead: Set[str] = set()
    if ops & {"remove-good", "remove-command"}:
        dead.add("good")
    if "remove-dying" in ops:
        dead.add("dying")
    if "remove-all" in ops:
        dead |= {"good", "other", "dying"}
        maybe |= {"new"}
    maybe |= {"dying"}
    adding = sum(x in ("add", "add-command") for x in (first, second))
    active = sched.alone(lambda: set(arena.manager.clients), "looking")
    names = {y: x for x, y in arena.idents.items()}
    fresh = active - set(names)
    # clients of a receiver that is gone may have been dropped
    dead_to = tuple(arena.spots["dying"].host)
    for ident in sorted(fresh):
        if arena.manager.clients[ident][0].getpeername() == dead_to:
            fresh.discard(ident)
    check(
        len(fresh) == adding or ("new" in maybe and len(fresh) < adding),
        f"{what}: {len(fresh)} new clients are active",
    )
    for name, ident in arena.idents.items():
        if name in dead:
            check(ident not in active, f"{what}: the {name} client is active")
        elif name not in maybe:
            check(ident in active, f"{what}: the {name} client isn't active")
        same(
            arena.socks[name].fileno() >= 0,
            ident in active,
            f"{what}: whether the socket of the {name} client is open",
        )
    gone = {arena.sink_ident} if "sink-fails" in ops else set()
    same(
        set(arena.writer.streams),
        active | ({arena.sink_ident} - gone),
        f"{what}: streams that are written to",
    )
    # who got the frame
    framed = "frame" in ops
    late = arena.source.frame(5)
    arena.writer.handle(late)
    end = [sized(late)]
    for name in ("good", "other", "new"):
        got = arena.spots[name].take()
        ident = arena.idents.get(name)
        alive = ident in active if ident is not None else bool(fresh)
        tails = [end] if alive else [[]]
        if name == "new" and len(fresh) < adding:
            tails.append([])
        check(
            len(got) <= (adding if name == "new" else 1)
            and sum(x[-1:] == end for x in got.values())
            == (len(fresh) if name == "new" else alive),
            f"{what}: {len(got)} clients send to the {name} receiver",
        )
        allowed = []
        for tail in tails:
            if framed:
                allowed.append([arena.sent] + tail)
            if not framed or name in dead or name == "new":
                allowed.append(tail)
        for have in got.values() if got else [[]]:
            check(
                have in allowed or (not have and name == "new"),
                f"{what}: the {name} client got {short(have)} instead of "
                f"{short(allowed[0])}",
            )
    check(
        arena.sink.got[-1:] == end or gone, f"{what}: a stream gets no frames"
    )


PROP = Prop(
    "C31",
    [
        Facet(
            "histories",
            lambda: histories,
            run_history,
            quick=300,
            rule="at least two streams were added and frames were written",
        ),
        Facet(
            "race",
            lambda: races,
            run_race,
            quick=300,
            rule="a pair of operations that may run at the same time",
        ),
    ],
    assumptions=[
        "loopback datagrams that were sent are in the receiver's buffer",
        "a client whose receiver closed its port is dropped by design, at the "
        "latest when the third frame after that is written",
        "a client that is removed while a frame is written may get it",
        "hosts are addresses (names that can't be resolved are replaced by "
        "localhost by design), ports aren't 0",
    ],
)
