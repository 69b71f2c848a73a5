"""C24: what a telemetry server sends arrives unchanged at its clients."""

from __future__ import annotations

import os
import socket
import struct
import threading
import time
from queue import Empty, Queue
from typing import Any, Dict, List, Optional, Tuple

import websockets.exceptions
import websockets.sync.client
from websockets.server import ServerProtocol
from hypothesis import strategies as st
from vtelem.classes.udp_client_manager import UdpClientManager
from vtelem.client.tcp import TcpClient
from vtelem.client.udp import UdpClient
from vtelem.client.udp import create as udp_client
from vtelem.client.websocket import WebsocketClient
from vtelem.daemon import DaemonState
from vtelem.daemon.tcp_telemetry import TcpTelemetryDaemon
from vtelem.daemon.websocket_telemetry import WebsocketTelemetryDaemon
from vtelem.enums.primitive import Primitive
from vtelem.mtu import Host, get_free_tcp_port
from vtelem.stream.writer import default_writer

from vt import envs, gen, ref
from vt.core import Facet, Prop, Rec, check, same, short
from vt.net import LIMIT, scope, until, wait

MOST = 5  # clients at a time
BURST = 40  # frames in flight, no datagram may be lost


def local() -> str:
    """A loopback address of this process, nobody else takes its ports."""
    pid = os.getpid()
    return f"127.{1 + (pid >> 14) % 250}.{(pid >> 7) % 128}.{1 + pid % 128}"


def plain(frame: Any) -> Any:
    """A decoded frame as the reference reports it."""
    body = frame.body
    head = frame.header
    elems: List[Any] = []
    if "channels" in body:
        for elem in body["channels"]:
            prim = elem["channel"].type.name
            elems.append((elem["id"], ref.pack(prim, elem["value"])))
        return (head.app_id, head.timestamp, ref.DATA, elems)
    for elem in body["events"]:
        one: Any = (elem["id"],)
        for side in ("previous", "current"):
            value = ref.pack(elem["channel"].type.name, elem[side]["value"])
            one += (value, elem[side]["time"])
        elems.append(one)
    return (head.app_id, head.timestamp, ref.EVENT, elems)


class World:
    """A server with all its transports."""

    def __init__(self, case: Any, stack: Any) -> None:
        self.case = case
        self.stack = stack
        self.address = local()
        self.env = envs.make_env(case["env"])
        self.idents = [
            self.env.add_channel(
                f"chan{num}",
                Primitive[prim],
                rate,
                **envs.options(track_change=track),
            )
            for num, (prim, rate, track) in enumerate(case["channels"])
        ]
        self.sent: List[bytes] = []
        put = self.env.frame_queue.put

        def record(frame: Any, *args: Any, **kwargs: Any) -> None:
            """Remember what is handed to the writer."""
            if frame is not None:
                self.sent.append(bytes(frame.raw[0]))
            put(frame, *args, **kwargs)

        self.env.frame_queue.put = record  # type: ignore
        self.writer, _ = default_writer(
            "writer", env=self.env, queue=self.env.frame_queue
        )
        self.tcp = TcpTelemetryDaemon(
            "tcp", self.writer, self.env, Host(self.address, 0)
        )
        stack.callback(self.tcp.server.server_close)
        self.wsd = WebsocketTelemetryDaemon(
            "ws",
            self.writer,
            Host(self.address, get_free_tcp_port(self.address)),
            self.env,
        )
        self.udp = UdpClientManager(self.writer)
        stack.callback(self.udp.remove_all)
        for daemon in (self.wsd, self.tcp, self.writer):
            check(daemon.start(), f"{daemon.name} can't be started")
            stack.callback(daemon.stop)
        self.serving()
        self.clients: Dict[int, Any] = {}
        self.count = 0
        self.step = 0.5
        self.lurking = 0  # streams of strangers, or that are gone unnoticed

    def serving(self) -> None:
        """Wait until new connections are accepted."""
        wait(
            lambda: self.tcp.get_state() == DaemonState.RUNNING
            and self.wsd.get_state() == DaemonState.RUNNING,
            "servers to run",
        )

        def accepted() -> bool:
            try:
                socket.create_connection(tuple(self.wsd.address), 5).close()
            except ConnectionRefusedError:
                return False
            return True

        wait(accepted, "the websocket server to listen")

    def dispatch(self) -> int:
        """Send frames."""
        before = len(self.sent)
        self.env.advance_time(self.step)
        self.env.dispatch_now()
        return len(self.sent) - before

    def values(self, sets: Any) -> None:
        """Change channels."""
        for which, (prim, value) in sets:
            num = which % len(self.idents)
            if self.case["channels"][num][0] == prim:
                self.env.set_now(self.idents[num], value)
            else:
                self.env.advance_time(0.25)

    def parsed(self, data: bytes) -> Any:
        """Reference decoding."""
        got = envs.parse(
            data, envs.channel_types(self.env), self.case["env"]["crc"]
        )
        return (got["app_id"], got["timestamp"], got["type"], got["elems"])


class Client:
    """Compares what arrives with what was sent."""

    kind = "?"

    def __init__(self, world: World, name: str) -> None:
        self.world = world
        self.name = name
        self.first: Optional[int] = None  # index of the first frame
        self.got: List[Any] = []
        self.lock = threading.Lock()

    def connect(self) -> None:
        """Connect to the server."""

    def leave(self) -> None:
        """Disconnect in an orderly way."""

    def abort(self) -> None:
        """Disconnect without a warning."""
        self.leave()

    def pump(self) -> None:
        """Take what arrived, don't wait long."""

    def item(self, num: int) -> Any:
        """What's expected for a frame."""
        return ref.with_length(self.world.sent[num])

    def locate(self) -> None:
        """The frame that arrived first."""
        for num in range(len(self.world.sent)):
            if self.item(num) == self.got[0]:
                self.first = num
                return
        check(False, f"{self.name}: {short(self.got[0])} was never sent")

    def compare(self, start: int = 0) -> None:
        """No frame is lost, repeated, changed or out of order."""
        assert self.first is not None
        for num in range(start, len(self.got)):
            index = self.first + num
            check(
                index < len(self.world.sent),
                f"{self.name}: {len(self.got)} frames arrived, "
                f"{len(self.world.sent) - self.first} were sent",
            )
            same(
                self.got[num],
                self.item(index),
                f"{self.name}: frame {num} since it's connected",
            )

    def settled(self) -> bool:
        """Everything arrived."""
        self.pump()
        assert self.first is not None
        return len(self.got) >= len(self.world.sent) - self.first

    def verify(self) -> None:
        """Everything sent arrives."""
        done = len(self.got)
        ok = until(self.settled)
        self.compare(max(0, done - 1))
        check(
            ok,
            f"{self.name}: {len(self.got)} of "
            f"{len(self.world.sent) - (self.first or 0)} frames arrived",
        )


class Raw(Client):
    """A byte stream."""

    kind = "tcp"

    def connect(self) -> None:
        self.data = b""
        self.sock = socket.create_connection(self.world.tcp.address, LIMIT)
        self.world.stack.callback(self.sock.close)
        self.sock.settimeout(0.002)

    def pump(self) -> None:
        try:
            while True:
                data = self.sock.recv(65536)
                check(data, f"{self.name}: connection closed by the server")
                self.data += data
                self.cut()
        except TimeoutError:
            pass

    def cut(self) -> None:
        """Frames are delimited by their size."""
        while len(self.data) >= 4:
            size = 4 + struct.unpack(">I", self.data[:4])[0]
            if len(self.data) < size:
                check(size < 70000, f"{self.name}: a frame of {size} bytes")
                return
            self.got.append(self.data[:size])
            self.data = self.data[size:]

    def leave(self) -> None:
        self.sock.close()

    def abort(self) -> None:
        self.sock.setsockopt(
            socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)
        )
        self.sock.close()


class RawWebsocket(Client):
    """A websocket client of another implementation."""

    kind = "ws"

    def connect(self) -> None:
        host, port = self.world.wsd.address
        self.conn = websockets.sync.client.connect(
            f"ws://{host}:{port}", open_timeout=LIMIT, close_timeout=0.2
        )
        self.world.stack.callback(self.conn.close)

    def pump(self) -> None:
        try:
            while True:
                data = self.conn.recv(0.002)
                check(
                    isinstance(data, bytes), f"{self.name}: not a binary message"
                )
                self.got.append(data)
        except TimeoutError:
            pass
        except websockets.exceptions.ConnectionClosed:
            check(False, f"{self.name}: connection closed by the server")

    def leave(self) -> None:
        self.conn.close()

    def abort(self) -> None:
        sock = self.conn.socket
        sock.setsockopt(
            socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)
        )
        sock.shutdown(socket.SHUT_RD)
        sock.close()


class RawUdp(Client):
    """Datagrams."""

    kind = "udp"

    def connect(self) -> None:
        self.sock = self.world.stack.socket(socket.AF_INET, socket.SOCK_DGRAM)
        self.sock.bind((self.world.address, 0))
        self.ident, _ = self.world.udp.add_client(
            Host(*self.sock.getsockname())
        )
        # what was sent to discover the MTU isn't telemetry
        self.sock.setblocking(False)
        self.probe = True

    def pump(self) -> None:
        try:
            while True:
                data = self.sock.recv(70000)
                if self.probe:
                    self.probe = False
                    if data not in map(ref.with_length, self.world.sent):
                        continue
                self.got.append(data)
        except BlockingIOError:
            pass

    def leave(self) -> None:
        self.world.udp.remove_client(self.ident)
        self.sock.close()

    def abort(self) -> None:
        self.sock.close()


class Typed(Client):
    """A client of the package."""

    client: Any
    queue: Queue

    def start(self) -> None:
        """Run the client."""
        self.world.stack.callback(self.client.stop)
        if self.world.case["other"]:
            self.client.update_mtu(self.world.case["env"]["mtu"])
        check(self.client.start(), f"{self.name}: can't be started")
        wait(
            lambda: self.client.get_state() == DaemonState.RUNNING,
            f"{self.name} to run",
        )

    def item(self, num: int) -> Any:
        return self.world.parsed(self.world.sent[num])

    def pump(self) -> None:
        try:
            while True:
                frame = self.queue.get(timeout=0.002)
                check(frame is not None, f"{self.name}: stream ended")
                self.got.append(plain(frame))
        except Empty:
            pass

    def leave(self) -> None:
        check(self.client.stop(), f"{self.name}: can't be stopped")
        wait(
            lambda: self.client.get_state() == DaemonState.IDLE,
            f"{self.name} to stop",
        )

    def again(self) -> None:
        """Stop and connect again, the same client."""
        self.leave()
        before = len(self.got)
        frames = []
        while not self.queue.empty():
            frames.append(self.queue.get())
        if self.kind != "ws-client":
            check(
                bool(frames) and frames.pop() is None,
                f"{self.name}: the end isn't reported",
            )
        check(None not in frames, f"{self.name}: the end is reported twice")
        self.got += map(plain, frames)
        self.compare(before)
        self.first = None
        self.got = []
        self.rejoin()

    def rejoin(self) -> None:
        """Start again."""
        self.start()


class Tcp(Typed):
    """TcpClient"""

    kind = "tcp-client"

    def connect(self) -> None:
        world = self.world
        mtu = world.case["other"] or world.case["env"]["mtu"]
        if world.case["made"]:
            self.client, self.queue = world.tcp.client(mtu)
        else:
            self.queue = Queue()
            self.client = TcpClient(
                Host(*world.tcp.address),
                self.queue,
                world.env.channel_registry,
                world.env.app_id,
                world.env if world.case["with"] else None,
                mtu,
            )
        self.start()


class Websocket(Typed):
    """WebsocketClient"""

    kind = "ws-client"

    def connect(self) -> None:
        world = self.world
        mtu = world.case["other"] or world.case["env"]["mtu"]
        if world.case["made"]:
            self.client, self.queue = world.wsd.client(mtu)
        else:
            self.queue = Queue()
            self.client = WebsocketClient(
                world.wsd.address,
                self.queue,
                world.env.channel_registry,
                app_id=world.env.app_id,
                env=world.env if world.case["with"] else None,
                mtu=mtu,
            )
        self.start()


class Udp(Typed):
    """UdpClient"""

    kind = "udp-client"

    def connect(self) -> None:
        world = self.world
        self.context = None
        if world.case["made"]:
            before = set(world.udp.clients)
            self.context = udp_client(
                world.udp,
                world.env,
                mtu=world.case["other"] or world.case["env"]["mtu"],
                local_addr=world.address,
            )
            self.client, self.queue = self.context.__enter__()
            (self.ident,) = set(world.udp.clients) - before
            self.start()
            return
        self.queue = Queue()
        self.client = UdpClient(
            Host(world.address, 0),
            self.queue,
            world.env.channel_registry,
            world.env.app_id,
            world.env if world.case["with"] else None,
            world.case["other"] or world.case["env"]["mtu"],
        )
        host = Host(*self.client.socket.getsockname())
        self.ident, _ = world.udp.add_client(host)
        self.start()

    def rejoin(self) -> None:
        # nobody knew that it would be back
        self.forget()
        self.connect()

    def forget(self) -> None:
        """Nothing is sent to it anymore."""
        if self.context is None:
            self.world.udp.remove_client(self.ident)
        else:
            self.context.__exit__(None, None, None)
        check(
            self.ident not in self.world.udp.clients,
            f"{self.name}: it's still a client",
        )

    def leave(self) -> None:
        super().leave()
        self.forget()

    def abort(self) -> None:
        super().leave()
        self.world.lurking += 1


KINDS = {
    x.kind: x for x in (Raw, RawWebsocket, RawUdp, Tcp, Websocket, Udp)
}


class Session:
    """Runs the operations of a case."""

    def __init__(self, world: World, rec: Rec) -> None:
        self.world = world
        self.rec = rec
        self.clients: List[Client] = []
        self.count = 0
        self.flying = 0
        self.together = False
        self.moves = 0

    def verify(self) -> None:
        """All connected clients have everything."""
        for client in self.clients:
            client.verify()
        self.flying = 0

    def send(self) -> None:
        """Dispatch once."""
        self.flying += self.world.dispatch()
        if self.flying > BURST:
            self.verify()

    def settle(self, client: Client) -> None:
        """
        A client is connected as soon as a frame arrives, from then on nothing
        may get lost.
        """

        def arrives() -> bool:
            # no frame in flight to a new client when the next is sent
            for other in self.clients:
                other.verify()
            self.flying = 0
            self.world.values(self.world.case["probe"])
            self.world.dispatch()
            until(lambda: (client.pump(), client.got)[1], 0.02)
            return bool(client.got)

        check(
            until(arrives),
            f"{client.name} is connected but doesn't get anything",
        )
        client.locate()
        client.compare()

    def op_join(self, kind: str) -> None:
        """A new client."""
        if len(self.clients) >= MOST:
            return
        self.count += 1
        client = KINDS[kind](self.world, f"{kind} client {self.count}")
        client.connect()
        self.settle(client)
        self.clients.append(client)
        self.rec.label(kind)
        self.moves += 1
        if len({x.kind for x in self.clients}) > 1:
            self.together = True

    def op_leave(self, arg: Tuple[int, str]) -> None:
        """A client disconnects, at any time."""
        if not self.clients:
            return
        which, how = arg
        client = self.clients.pop(which % len(self.clients))
        if how == "abort":
            client.abort()
        else:
            client.leave()
        self.rec.label(how)
        self.moves += 1

    def op_again(self, which: int) -> None:
        """A client disconnects and connects again."""
        typed = [x for x in self.clients if isinstance(x, Typed)]
        if not typed:
            return
        client = typed[which % len(typed)]
        self.clients.remove(client)
        client.again()
        self.settle(client)
        self.clients.append(client)
        self.rec.label("again")
        self.moves += 1

    def op_bounce(self, which: str) -> None:
        """One of the servers stops, all others go on."""
        world = self.world
        daemon = world.tcp if which == "tcp" else world.wsd
        ended = [x for x in self.clients if x.kind.startswith(which)]
        self.clients = [x for x in self.clients if x not in ended]
        check(daemon.stop(), f"{which} server can't be stopped")
        wait(
            lambda: daemon.get_state() == DaemonState.IDLE,
            f"{which} server to stop",
        )
        self.send()
        for client in ended:
            if isinstance(client, Typed):
                client.client.stop()
        check(daemon.start(), f"{which} server can't be started again")
        world.serving()
        self.rec.label("bounce")

    def op_stranger(self, how: str) -> None:
        """Somebody who doesn't behave like a telemetry client."""
        world = self.world
        addr: Any = world.tcp.address
        data = b"\x00\x01GET / HTTP/1.1\r\n\r\n"
        if how == "ws":
            addr = tuple(world.wsd.address)
        sock = socket.create_connection(addr, LIMIT)
        world.stack.callback(sock.close)
        if how == "silent":
            world.lurking += 1
        else:
            sock.sendall(data)
            sock.close()
        self.rec.label("stranger")

    def op_feed(self, arg: Any) -> None:
        """Values change and are sent."""
        sets, count = arg
        for num in range(count):
            self.world.values(sets[num % len(sets) :])
            self.send()

    def op_flood(self, count: int) -> None:
        """More frames than queues have space for, no datagram client."""
        if any(x.kind.startswith("udp") for x in self.clients):
            self.verify()
            count = BURST
        for num in range(count):
            self.flying += self.world.dispatch()
            if num % 30 == 29:
                for client in self.clients:
                    client.pump()
        self.rec.label("flood" if count > BURST else "no-flood")
        self.verify()

    def counted(self, there: bool) -> None:
        """Those that left are forgotten, which is noticed when writing."""
        queues = sum(x.kind.startswith("ws") for x in self.clients if there)
        streams = len(self.clients) * there - queues
        world = self.world

        def noticed() -> bool:
            world.dispatch()
            time.sleep(0.005)
            for client in self.clients if there else []:
                client.pump()
            got = world.env.get_metric("writer.stream_count")
            return (
                world.env.get_metric("writer.queue_count") == queues
                and streams <= got <= streams + world.lurking
            )

        check(
            until(noticed),
            f"the writer has {world.env.get_metric('writer.queue_count')} "
            f"queues and {world.env.get_metric('writer.stream_count')} "
            f"streams, {queues} and {streams} (to {world.lurking} more) should "
            "be left",
        )

    def op_check(self, _: Any) -> None:
        """Compare everything."""
        self.verify()


def run(case: Any, rec: Rec) -> None:
    """A session of a server."""
    with scope() as stack:
        world = World(case, stack)
        session = Session(world, rec)
        for name, arg in case["ops"]:
            getattr(session, f"op_{name}")(arg)
        session.verify()
        # what arrives too much has arrived when the last frame has
        world.values(case["probe"])
        session.send()
        session.verify()
        if case["env"]["metrics"] is not None:
            session.counted(True)
            for client in session.clients:
                client.leave()
            session.counted(False)
        rec.count("frames", len(world.sent))
        rec.nontrivial(session.together and len(world.sent) >= 10)


sets = st.lists(
    st.tuples(st.integers(0, 5), gen.any_value()), min_size=1, max_size=8
)
kinds = st.sampled_from(sorted(KINDS))
ops = gen.weighted(
    (6, st.tuples(st.just("join"), kinds)),
    (
        3,
        st.tuples(
            st.just("leave"),
            st.tuples(st.integers(0, 5), st.sampled_from(["leave", "abort"])),
        ),
    ),
    (1, st.tuples(st.just("again"), st.integers(0, 5))),
    (1, st.tuples(st.just("bounce"), st.sampled_from(["tcp", "ws"]))),
    (
        1,
        st.tuples(
            st.just("stranger"), st.sampled_from(["tcp", "ws", "silent"])
        ),
    ),
    (8, st.tuples(st.just("feed"), st.tuples(sets, st.integers(1, 12)))),
    (1, st.tuples(st.just("check"), st.just(0))),
    (1, st.tuples(st.just("flood"), st.integers(250, 700))),
)


@st.composite
def sessions(draw: Any) -> Any:
    """Options and operations."""
    chans = draw(
        st.lists(
            st.tuples(gen.prims, gen.rates, st.booleans()),
            min_size=1,
            max_size=6,
        )
    )
    # something is always due
    chans[0] = (chans[0][0], 0.25, False)
    start = [("join", x) for x in draw(st.lists(kinds, max_size=4))]
    return {
        "env": {
            "mtu": draw(st.sampled_from([64, 67, 80, 131, 512, 1399, 1400])),
            "crc": draw(st.booleans()),
            "basis": draw(st.sampled_from([0.5, 0.25, 0.9])),
            "metrics": draw(st.sampled_from([None, None, 1.0])),
        },
        "made": draw(st.booleans()),
        "other": draw(st.sampled_from([0, 0, 40, 4000])),
        "with": draw(st.booleans()),
        "channels": chans,
        "probe": draw(sets),
        "ops": start + draw(st.lists(ops, min_size=3, max_size=14)),
    }


# -- clients of a scripted server ---------------------------------------------


class Script:
    """Sends prepared bytes, in prepared pieces, to a client."""

    def __init__(self, case: Any, stack: Any) -> None:
        self.case = case
        self.stack = stack
        self.address = local()
        self.kind = case["kind"]
        self.env = envs.make_env(case["env"])
        self.idents = [
            self.env.add_channel(
                f"chan{num}",
                Primitive[prim],
                0.5,
                **envs.options(track_change=track),
            )
            for num, (prim, track) in enumerate(case["channels"])
        ]
        self.types = envs.channel_types(self.env)
        self.queue: Queue = Queue()
        self.serial = 0
        self.conn: Any = None
        self.want: List[Any] = []
        self.listen()
        args = (
            self.queue,
            self.env.channel_registry,
            self.env.app_id if case["expect"] else None,
            self.env if case["with"] else None,
            case["other"] or case["env"]["mtu"],
        )
        host = Host(*self.listener.getsockname())
        if self.kind == "tcp":
            self.client: Any = TcpClient(host, *args)
        elif self.kind == "udp":
            self.client = UdpClient(Host(self.address, 0), *args)
        else:
            self.client = WebsocketClient(
                host,
                self.queue,
                self.env.channel_registry,
                app_id=args[2],
                env=args[3],
                mtu=args[4],
            )
        if case["other"]:
            self.client.update_mtu(case["env"]["mtu"])
        stack.callback(self.client.stop)

    def listen(self) -> None:
        """Where the client connects to."""
        kind = socket.SOCK_DGRAM if self.kind == "udp" else socket.SOCK_STREAM
        self.listener = self.stack.socket(socket.AF_INET, kind)
        self.listener.bind((self.address, 0))
        if self.kind != "udp":
            self.listener.listen(4)

    def room(self, prim: str) -> int:
        """How many elements fit into a frame."""
        crc = self.case["env"]["crc"]
        empty = len(ref.data_frame(0, 0, [], crc))
        one = len(ref.data_frame(0, 0, [(0, prim, 0)], crc)) - empty
        return min(255, (self.case["env"]["mtu"] - empty) // one)

    def frame(self, spec: Any) -> bytes:
        """A frame that can be told apart."""
        self.serial += 1
        kind, which, value = spec
        app = self.env.app_id.get()
        crc = self.case["env"]["crc"]
        num = which % len(self.idents)
        prim = self.case["channels"][num][0]
        bits = value if value[0] == prim else (prim, 0)
        good = kind == "good"
        if kind == "foreign":
            app ^= 1
            good = not self.case["expect"]
        elem: Any = (self.idents[num], prim, bits[1])
        elems = [elem]
        if kind == "full":
            # as many elements as fit
            good = True
            elems *= self.room(prim)
        data = ref.data_frame(app, self.serial, elems, crc)
        if kind == "event":
            elem = (self.idents[num], prim, 0, 1, bits[1], self.serial)
            data = ref.event_frame(app, self.serial, [elem], crc)
            good = True
        elif kind == "bad":
            data = data[:2] + b"\x37" + data[3:]
        elif kind == "empty":
            data = b""
        if good:
            got = ref.parse(data, self.types, crc)
            self.want.append(
                (got["app_id"], got["timestamp"], got["type"], got["elems"])
            )
        return ref.with_length(data)

    def accept(self) -> None:
        """The client connects."""
        if self.kind == "udp":
            self.conn = self.stack.socket(socket.AF_INET, socket.SOCK_DGRAM)
            self.conn.bind((self.address, 0))
            self.conn.connect(self.client.socket.getsockname())
            return
        sock, _ = self.listener.accept()
        sock.settimeout(LIMIT)
        sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.stack.callback(sock.close)
        if self.kind == "tcp":
            self.conn = sock
            return
        self.conn = ServerProtocol()
        self.sock = sock
        while not (events := self.conn.events_received()):
            self.conn.receive_data(sock.recv(65536))
        self.conn.send_response(self.conn.accept(events[0]))
        self.flush()

    def flush(self) -> None:
        """Send what the websocket protocol has to say."""
        for data in self.conn.data_to_send():
            if data:
                self.sock.sendall(data)

    def send(self, data: bytes) -> None:
        """One piece."""
        if self.kind == "ws":
            self.conn.send_binary(data)
            self.flush()
        elif self.kind == "tcp":
            self.conn.sendall(data)
        else:
            self.conn.send(data)

    def stop(self) -> None:
        """The client stops, a websocket server answers what it says."""
        if self.kind == "ws":
            # the next connection has its own socket
            helper = threading.Thread(
                target=answer, args=(self.sock, self.conn), daemon=True
            )
            helper.start()
        check(self.client.stop(), "the client can't be stopped")

    def hangup(self, how: str) -> None:
        """End the connection."""
        if self.kind == "udp":
            self.conn.close()
            return
        sock = self.sock if self.kind == "ws" else self.conn
        if how == "reset":
            sock.setsockopt(
                socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)
            )
        elif how == "close" and self.kind == "ws":
            self.conn.send_close()
            self.flush()
        sock.close()


def answer(sock: Any, conn: Any) -> None:
    """Finish the closing handshake of a connection."""
    try:
        while data := sock.recv(65536):
            conn.receive_data(data)
            for out in conn.data_to_send():
                if out:
                    sock.sendall(out)
            if conn.close_expected():
                break
    except OSError:
        pass
    sock.close()


def run_script(case: Any, rec: Rec) -> None:
    """Whole frames are delivered however they arrive."""
    with scope() as stack:
        script = Script(case, stack)
        client = script.client
        total = 0
        for num, (specs, cut, how, sizes) in enumerate(case["connections"]):
            check(client.start(), "the client can't be started")
            script.want = []
            wait(
                lambda: client.get_state() == DaemonState.RUNNING
                or num == 0,
                "the client to run",
            )
            if script.kind == "udp":
                wait(lambda: client.socket.fileno() != -1, "the client to bind")
            script.accept()
            frames = [script.frame(x) for x in specs]
            data = b"".join(frames)
            if script.kind == "udp":
                for frame in frames:
                    # datagrams that aren't frames don't matter
                    if sizes and sizes[0] % 3 == 0:
                        script.send(frame[: sizes[0] % max(1, len(frame))])
                    script.send(frame)
            else:
                # part of another frame, the connection ends inside of it
                kept = len(script.want)
                extra = script.frame(("good", 0, ("", 0)))
                del script.want[kept:]
                data += extra[: cut % len(extra)]
                pos = at = 0
                while pos < len(data):
                    size = sizes[at % len(sizes)] if sizes else len(data)
                    script.send(data[pos : pos + size])
                    pos += size
                    at += 1
            until(lambda: script.queue.qsize() >= len(script.want))
            if how == "stop" or script.kind == "udp":
                script.stop()
            script.hangup(how)
            if script.kind == "tcp":
                wait(
                    lambda: client.get_state() == DaemonState.IDLE,
                    "the client's thread to end",
                )
            elif script.kind == "ws" and how != "stop":
                wait(lambda: not client.connected, "the client to notice")
                check(client.stop(), "the client can't be stopped")
            frames = []
            while not script.queue.empty():
                frames.append(script.queue.get())
            if script.kind != "ws":
                check(
                    bool(frames) and frames.pop() is None,
                    f"connection {num}: the end of the stream isn't reported",
                )
            same(
                [None if x is None else plain(x) for x in frames],
                script.want,
                f"connection {num}: frames",
            )
            total += len(frames)
            rec.label(how)
        rec.label(script.kind)
        rec.nontrivial(len(case["connections"]) > 1 and total >= 3)


frame_kinds = gen.weighted(
    (10, st.just("good")),
    (3, st.just("event")),
    (3, st.just("full")),
    (1, st.just("foreign")),
    (1, st.just("bad")),
    (1, st.just("empty")),
)
scripts = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(["tcp", "tcp", "ws", "udp"]),
        "env": st.fixed_dictionaries(
            {
                "mtu": st.sampled_from([64, 67, 100, 131, 1399, 1400]),
                "crc": st.booleans(),
                "basis": st.just(0.5),
            }
        ),
        "expect": st.booleans(),
        "with": st.booleans(),
        # constructed with another limit which is changed before starting
        "other": st.sampled_from([0, 0, 40, 4000]),
        "channels": st.lists(
            st.tuples(gen.prims, st.booleans()), min_size=1, max_size=4
        ),
        "connections": st.lists(
            st.tuples(
                st.lists(
                    st.tuples(frame_kinds, st.integers(0, 3), gen.any_value()),
                    max_size=10,
                ),
                st.integers(0, 60),
                st.sampled_from(["stop", "close", "reset"]),
                st.lists(
                    st.one_of(st.integers(1, 8), st.integers(1, 400)),
                    max_size=5,
                ),
            ),
            min_size=1,
            max_size=4,
        ),
    }
)


PROP = Prop(
    "C24",
    [
        Facet(
            "session",
            sessions,
            run,
            300,
            thorough=6000,
            rule="clients of six kinds (raw and the package's own, TCP, UDP "
            "and WebSocket) connect, leave, break and come back while frames "
            "are sent; non-trivial = clients of several kinds at the same "
            "time, ten frames or more",
        ),
        Facet(
            "scripted",
            lambda: scripts,
            run_script,
            3000,
            rule="the package's clients are served prepared frames in pieces "
            "of any size, by connections that end in the middle of a frame; "
            "non-trivial = several connections, three frames or more",
        ),
    ],
    assumptions=[
        "loopback doesn't lose datagrams with few frames in flight",
        "a client counts as connected when its first frame arrived",
    ],
    budget=110,
)
