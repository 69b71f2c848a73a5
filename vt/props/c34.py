"""C34: what is found out about the network is true and leaves no trace."""

from __future__ import annotations

import gc
import os
import select
import socket
import struct
import threading
from typing import Any, Callable, List, Optional, Tuple

from hypothesis import strategies as st
from vtelem.classes.udp_client_manager import UdpClientManager
from vtelem.enums.primitive import Primitive
from vtelem.mtu import (
    Host,
    create_udp_socket,
    discover_ipv4_mtu,
    discover_mtu,
    get_free_port,
    get_free_tcp_port,
    host_resolve_zero,
)
from vtelem.stream.writer import default_writer
from vtelem.telemetry.server import TelemetryServer

from vt import gen, ref
from vt.apart import LARGEST, apart, get_limit, set_limit
from vt.core import Facet, Prop, Rec, check, same

DISCOVER = 10
KINDS = {"tcp": socket.SOCK_STREAM, "udp": socket.SOCK_DGRAM}
LIMIT = 20


def descriptors() -> List[str]:
    """What this process has open."""
    gc.collect()
    result = []
    for name in os.listdir("/proc/self/fd"):
        try:
            result.append(f"{name} {os.readlink('/proc/self/fd/' + name)}")
        except OSError:
            pass
    return sorted(x for x in result if "/fd" not in x and "/proc/" not in x)


def plain(kind: int, addr: str, port: int) -> Optional[socket.socket]:
    """A socket bound somewhere, if that's possible."""
    sock = socket.socket(socket.AF_INET, kind)
    try:
        sock.bind((addr, port))
    except OSError:
        sock.close()
        return None
    return sock


# -- probes -------------------------------------------------------------------

limits = st.one_of(
    st.sampled_from([576, 1280, 1500, 9000, LARGEST, 65536]),
    st.integers(120, 2000),
    st.integers(120, 2000),
    st.integers(120, 65536),
)
sizes = gen.weighted(
    (8, st.integers(20, 2000)),
    (1, st.integers(20, 70000)),
    (1, st.sampled_from([20, 1428, 65471, 65503, 65504, 69999])),
)
probes = st.fixed_dictionaries(
    {
        "op": st.sampled_from(["probe", "probe", "host", "client"]),
        "peer": gen.weighted(
            (5, st.just("open")), (1, st.just("closed")), (1, st.just("name"))
        ),
        "limit": st.one_of(st.none(), limits),
        "near": st.one_of(st.none(), st.integers(-40, 10)),
        "size": sizes,
        "basis": st.one_of(st.none(), st.floats(0, 1)),
        "option": st.integers(0, 5),
        "timeout": st.sampled_from([None, None, 0.0, 5.0]),
    }
)
probe_cases = st.fixed_dictionaries(
    {"limit": limits, "steps": st.lists(probes, min_size=1, max_size=6)}
)


def arrived(sock: socket.socket) -> List[bytes]:
    """What is there to be read (the loopback delivers at once)."""
    result = []
    while select.select([sock], [], [], 0)[0]:
        result.append(sock.recv(1 << 17))
    return result


def one_probe(
    step: Any, rec: Rec, listener: socket.socket
) -> None:
    """Discover once, any way there is."""
    limit = get_limit()
    size = step["size"]
    if step["near"] is not None:
        size = min(max(20, limit - 28 - 4 + step["near"]), 70000)
    peer = Host(*listener.getsockname())
    if step["peer"] == "closed":
        temp = plain(socket.SOCK_DGRAM, "127.0.0.1", 0)
        assert temp is not None
        peer = Host(*temp.getsockname())
        temp.close()
    elif step["peer"] == "name":
        peer = Host("localhost", peer.port)
    before = descriptors()
    basis = None
    result = 0
    expect = limit
    if step["op"] == "host":
        result = discover_ipv4_mtu(peer, size)
        same(descriptors(), before, "descriptors after a discovery")
    elif step["op"] == "client":
        writer, _ = default_writer()
        mgr = UdpClientManager(writer)
        ident, result = mgr.add_client(peer)
        expect = limit - 68
        size = 1428
        same(
            len(mgr.clients), 1, "number of clients after a client was added"
        )
        mgr.remove_client(ident)
        del mgr, writer
        same(descriptors(), before, "descriptors after removing a client")
    else:
        sock = create_udp_socket(peer)
        with sock:
            same(
                sock.getpeername(),
                ("127.0.0.1", peer.port),
                "peer of a created socket",
            )
            sock.setsockopt(socket.IPPROTO_IP, DISCOVER, step["option"])
            sock.settimeout(step["timeout"])
            basis = step["basis"]
            result = discover_mtu(sock, size, basis)
            same(
                sock.getsockopt(socket.IPPROTO_IP, DISCOVER),
                step["option"],
                "the socket's option after a discovery",
            )
            same(
                sock.gettimeout(),
                step["timeout"],
                "the socket's timeout after a discovery",
            )
            same(
                sock.getpeername(),
                ("127.0.0.1", peer.port),
                "peer of the socket after a discovery",
            )
    same(result, expect, f"size discovered by {step['op']}")
    got = arrived(listener)
    fits = size + 4 + 28 <= limit
    if step["peer"] == "closed" or not fits:
        same(got, [], "datagrams at the listener")
        rec.count("too large" if not fits else "nobody there")
        return
    rec.count("delivered")
    same(len(got), 1, "number of datagrams of one probe")
    data = got[0]
    same(len(data), size + 4, "length of the probe's datagram")
    same(data[:4], struct.pack(">I", size), "length field of a probe")
    app_id, ftype, _, count = ref.HEADER.unpack(data[4:19])
    same((ftype, count), (0, 0), "type and count of a probe")
    if basis is not None:
        same(app_id, int(LARGEST * basis), "application of a probe")


def run_probe(case: Any, rec: Rec) -> None:
    """Probes of sockets, hosts and clients over links of all sizes."""

    def body(inner: Rec, alone: bool) -> None:
        inner.label("own network" if alone else "machine's network")
        if alone:
            set_limit(case["limit"])
        seen = set()
        with socket.socket(socket.AF_INET, socket.SOCK_DGRAM) as listener:
            listener.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 20)
            listener.bind(("127.0.0.1", 0))
            for step in case["steps"]:
                if alone and step["limit"] is not None:
                    set_limit(step["limit"])
                one_probe(step, inner, listener)
                seen.add(get_limit())
        inner.nontrivial(
            len(case["steps"]) > 1
            and inner.notes.get("delivered", 0)
            and (inner.notes.get("too large", 0) or len(seen) > 1)
        )

    apart(body, rec)


# -- ports --------------------------------------------------------------------

addrs = st.sampled_from(["0.0.0.0", "127.0.0.1", "127.0.0.1", "127.0.0.2"])
ports = st.sampled_from([0, 20001, 20001, 20002, 20003])
kinds = st.sampled_from(["tcp", "udp"])
port_ops = gen.weighted(
    (3, st.tuples(st.just("hold"), kinds, addrs, ports, st.booleans())),
    (1, st.tuples(st.just("drop"), kinds, addrs, ports, st.booleans())),
    (4, st.tuples(st.just("free"), kinds, addrs, ports, st.booleans())),
    (2, st.tuples(st.just("free tcp"), kinds, addrs, ports, st.booleans())),
    (3, st.tuples(st.just("resolve"), kinds, addrs, ports, st.booleans())),
    (3, st.tuples(st.just("server"), kinds, addrs, ports, st.booleans())),
    (1, st.tuples(st.just("client"), kinds, addrs, ports, st.booleans())),
)
port_cases = st.fixed_dictionaries(
    {"ops": st.lists(port_ops, min_size=3, max_size=16)}
)


class Ports:
    """Sockets that are held and what must be possible beside them."""

    def __init__(self, rec: Rec) -> None:
        self.rec = rec
        self.held: List[Tuple[str, str, int, socket.socket]] = []

    def taken(self, kind: str, addr: str, port: int) -> bool:
        """Whether an address can't be bound."""
        return port != 0 and any(
            k == kind and p == port and "0.0.0.0" in (a, addr) or
            (k, a, p) == (kind, addr, port)
            for k, a, p, _ in self.held
        )

    def usable(self, kind: str, addr: str, port: int, what: str) -> None:
        """A port that's been found must be free, and stay so."""
        check(0 < port <= LARGEST, f"{what}: port {port}")
        sock = plain(KINDS[kind], addr, port)
        check(sock is not None, f"{what}: port {port} can't be bound")
        assert sock is not None
        sock.close()

    def attempt(
        self, fails: bool, what: str, func: Callable[[], Any]
    ) -> Any:
        """Something that must raise, or must not."""
        before = descriptors()
        result, failure = None, ""
        try:
            result = func()
        except OSError as exc:
            failure = str(exc) or "an error"
        if failure:
            check(fails, f"{what} raised {failure}")
            self.rec.count("refused")
            same(descriptors(), before, f"descriptors after a failing {what}")
            return None
        check(not fails, f"{what} works with an address that's taken")
        if not isinstance(result, socket.socket):
            same(descriptors(), before, f"descriptors after {what}")
        self.rec.count("found")
        return result

    def step(self, oper: Any) -> None:
        """One operation."""
        name, kind, addr, port, flag = oper
        what = f"{name} {kind} {addr} {port}"
        host = Host(addr, port)
        if name == "hold":
            sock = plain(KINDS[kind], addr, port)
            same(
                sock is None, self.taken(kind, addr, port), "whether it's taken"
            )
            if sock is not None:
                if flag and kind == "tcp":
                    sock.listen()
                self.held.append((kind, addr, sock.getsockname()[1], sock))
        elif name == "drop":
            if self.held:
                self.held.pop(port % len(self.held))[3].close()
        elif name in ("free", "free tcp"):
            if name == "free tcp":
                kind = "tcp"
            got = self.attempt(
                self.taken(kind, addr, port),
                what,
                lambda: get_free_tcp_port(addr, port)
                if name == "free tcp"
                else get_free_port(KINDS[kind], addr, port, flag),
            )
            if got is not None:
                check(port in (0, got), f"{what}: port {got}")
                self.usable(kind, addr, got, what)
        elif name == "resolve":
            got = self.attempt(
                False, what, lambda: host_resolve_zero(KINDS[kind], host)
            )
            same(got.address, addr, f"{what}: address")
            if port:
                same(got.port, port, f"{what}: port")
            else:
                self.usable(kind, addr, got.port, what)
        elif name == "server":
            sock = self.attempt(
                self.taken("udp", addr, port),
                what,
                lambda: create_udp_socket(host, False, flag),
            )
            if sock is not None:
                bound = sock.getsockname()
                same(bound[0], addr, f"{what}: address")
                check(port in (0, bound[1]), f"{what}: port {bound[1]}")
                same(
                    bool(
                        sock.getsockopt(
                            socket.SOL_SOCKET, socket.SO_REUSEADDR
                        )
                    ),
                    flag,
                    f"{what}: reuse",
                )
                self.held.append(("udp", addr, bound[1], sock))
        else:
            sock = self.attempt(
                False, what, lambda: create_udp_socket(host, True, flag)
            )
            with sock:
                if port:
                    peer = "127.0.0.1" if addr == "0.0.0.0" else addr
                    same(sock.getpeername(), (peer, port), f"{what}: peer")


def run_ports(case: Any, rec: Rec) -> None:
    """Free ports and sockets beside others."""

    def body(inner: Rec, alone: bool) -> None:
        inner.label("own network" if alone else "machine's network")
        if not alone:
            return
        state = Ports(inner)
        for oper in case["ops"]:
            state.step(oper)
        for entry in state.held:
            entry[3].close()
        inner.nontrivial(
            inner.notes.get("refused", 0) and inner.notes.get("found", 0)
        )

    apart(body, rec)


# -- servers ------------------------------------------------------------------

server_cases = st.fixed_dictionaries(
    {
        "limit": st.one_of(
            st.integers(200, 1600),
            st.sampled_from([1499, 1500, 1501, 9000, 65536]),
        ),
        "later": st.one_of(st.none(), st.integers(1500, 65536)),
        "channels": st.lists(
            st.sampled_from(["UINT8", "UINT16", "FLOAT", "DOUBLE"]),
            min_size=60,
            max_size=400,
        ),
        "tracked": st.booleans(),
    }
)


def run_server(case: Any, rec: Rec) -> None:
    """A server's frames fit the network it was started in, and use it."""

    def body(inner: Rec, alone: bool) -> None:
        inner.label("own network" if alone else "machine's network")
        if alone:
            set_limit(case["limit"])
        limit = min(get_limit(), 1500)
        server = TelemetryServer(0.05, 0.25, None, 0.5)
        env = server.daemons.get("telemetry")
        room = limit - 68 - 4
        ids = [
            env.add_channel(
                f"c{num}", Primitive[name], 0.5, track_change=case["tracked"]
            )
            for num, name in enumerate(case["channels"])
        ]
        if case["tracked"]:
            for chan in ids:
                env.set_now(chan, 1)
        total = env.dispatch_now()
        frames = []
        while not env.frame_queue.empty():
            frames.append(env.frame_queue.get())
        same(len(frames), total, "number of frames")
        lengths = [x.raw[1] for x in frames]
        check(
            max(lengths) <= room,
            f"a frame of {max(lengths)} bytes over a link of {limit}",
        )
        if len(frames) > 2:
            check(
                max(lengths) > room - 30,
                f"frames of at most {max(lengths)} of {room} bytes",
            )
            inner.nontrivial()
        if alone and case["later"] is not None:
            # larger packets don't disturb what has been decided
            set_limit(max(case["later"], case["limit"]))
        with socket.socket(socket.AF_INET, socket.SOCK_DGRAM) as listener:
            listener.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 22)
            listener.settimeout(LIMIT)
            listener.bind(("127.0.0.1", 0))
            ident, _ = server.udp_clients.add_client(
                Host(*listener.getsockname())
            )
            arrived(listener)
            writer = server.udp_clients.writer
            for frame in frames:
                writer.queue.put(frame)
            writer.queue.put(None)
            thread = threading.Thread(target=writer.start, daemon=True)
            thread.start()
            for frame in frames:
                data = listener.recv(1 << 16)
                same(
                    data,
                    ref.with_length(bytes(frame.raw[0])),
                    "a datagram",
                )
                check(
                    len(data) + 28 <= limit,
                    f"a datagram of {len(data)} bytes over a link of {limit}",
                )
            inner.count("datagrams", len(frames))
            server.udp_clients.remove_client(ident)

    apart(body, rec)


PROP = Prop(
    "C34",
    [
        Facet(
            "probes",
            lambda: probe_cases,
            run_probe,
            900,
            rule="sockets, hosts and clients over an own network whose packet "
            "size changes; non-trivial = several probes, with ones that "
            "arrive and ones that don't fit or different packet sizes",
        ),
        Facet(
            "ports",
            lambda: port_cases,
            run_ports,
            1500,
            rule="free ports and sockets beside ones that are held; "
            "non-trivial = some were refused and some found",
        ),
        Facet(
            "servers",
            lambda: server_cases,
            run_server,
            200,
            rule="a server started in a network with some packet size and its "
            "frames; non-trivial = more than two frames",
        ),
    ],
    assumptions=[
        "the network is a loopback interface in a network namespace of its "
        "own; without the privilege for that only the machine's loopback "
        "interface with its packet size is used and fixed ports aren't",
        "a port that's found can be taken by another process right afterwards",
    ],
)
