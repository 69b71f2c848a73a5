"""C26: a server starts with exactly the services it is configured for."""

from __future__ import annotations

import http.client
import itertools
import json
import logging
import math
import os
import signal
import socket
import socketserver
import subprocess
import sys
import tempfile
import threading
import time
from typing import Any, Callable, Dict, List, Optional, Tuple
from urllib.parse import urlencode

import websockets.exceptions
import websockets.sync.client
from hypothesis import strategies as st
from vtelem.classes.user_enum import user_enum
from vtelem.channel.group_registry import ChannelGroupRegistry
from vtelem.daemon.command_queue import CommandQueueDaemon
from vtelem.classes.time_keeper import TimeKeeper
from vtelem.daemon.telemetry import TelemetryDaemon
from vtelem.factories.telemetry_server import register_http_handlers
from vtelem.registry.service import ServiceRegistry
from vtelem.daemon import DaemonOperation, DaemonState
from vtelem.entry import main as entry_point
from vtelem.enums.primitive import Primitive
from vtelem.mtu import Host
from vtelem.telemetry.server import TelemetryServer
from vtelem.types.telemetry_server import Service, TelemetryServices

from vt import envs, gen, sched
from vt.apart import apart
from vt.core import Facet, Prop, Rec, Violation, check, same, short
from vt.net import LIMIT, scope, until
from vt.props.c24 import local

# connections that break print a traceback otherwise
socketserver.BaseServer.handle_error = lambda *_: None  # type: ignore

SERVICES = ["http", "websocket_cmd", "websocket_tlm", "tcp_tlm"]
# below what the system gives to others
PORTS: Dict[int, Any] = {}


def free_port(address: str) -> int:
    """A port nobody listens on, that isn't given to anybody else."""
    pid = os.getpid()
    ports = PORTS.setdefault(pid, itertools.count(pid * 211))
    while True:
        port = 10000 + next(ports) % 20000
        with socket.socket() as sock:
            try:
                sock.bind((address, port))
            except OSError:
                continue
            return port


class Delay:
    """Threads of some names begin late, as on a busy system."""

    def __init__(self, spec: Any) -> None:
        self.late = dict(spec)
        self.started: List[threading.Thread] = []

    def __enter__(self) -> "Delay":
        self.run = threading.Thread.run
        run = self.run
        delay = self

        def late(thread: threading.Thread) -> None:
            """Begin later."""
            delay.started.append(thread)
            if thread.name in delay.late:
                time.sleep(delay.late[thread.name] / 1000)
            run(thread)

        threading.Thread.run = late  # type: ignore
        return self

    def __exit__(self, *_: Any) -> None:
        threading.Thread.run = self.run  # type: ignore


def strict(text: str, what: str) -> Any:
    """JSON, without the extensions of Python's parser."""

    def refuse(name: str) -> Any:
        raise ValueError(f"{name} isn't JSON")

    try:
        return json.loads(text, parse_constant=refuse)
    except ValueError as exc:
        raise Violation(
            f"{what} isn't valid JSON: {exc}: {short(text)}", key="json"
        ) from exc


def request(
    address: Tuple[str, int],
    method: str,
    path: str,
    params: Any = None,
) -> Tuple[int, str]:
    """An answer, over a connection of its own."""
    conn = http.client.HTTPConnection(*address, timeout=LIMIT)
    try:
        head = {}
        body = None
        if params is not None and method == "POST":
            head["Content-Type"] = "application/x-www-form-urlencoded"
            body = urlencode(params)
        elif params:
            path += "?" + urlencode(params)
        try:
            conn.request(method, path, body, head)
            resp = conn.getresponse()
            return resp.status, resp.read().decode()
        except (OSError, http.client.HTTPException) as exc:
            raise Violation(
                f"{method} {path} isn't answered: {type(exc).__name__}: {exc}",
                key="unanswered",
            ) from exc
    finally:
        conn.close()


def ws_command(conn: Any, message: Any) -> Tuple[bool, Any]:
    """The answer to a command."""
    try:
        conn.send(message)
        answer = conn.recv(LIMIT)
    except (
        TimeoutError,
        OSError,
        websockets.exceptions.WebSocketException,
    ) as exc:
        raise Violation(
            f"websocket command {short(message)} isn't answered: {exc!r}",
            key="unanswered",
        ) from exc
    data = strict(answer, f"the answer to {short(message)}")
    check(
        isinstance(data, dict)
        and isinstance(data.get("success"), bool)
        and "message" in data,
        f"the answer to {short(message)} is {short(answer)}",
    )
    return data["success"], data["message"]


# --- registries ------------------------------------------------------------

words = gen.weighted(
    (3, gen.idents),
    (2, gen.names),
    (1, st.sampled_from(["mappings", "0", "a.b", "NaN", '"', "é☃", "%s", "\ud800"])),
)
rates = gen.weighted(
    (6, gen.rates), (1, st.sampled_from([float("inf"), 1e300, 1e-9, 5]))
)
labels = st.lists(
    st.tuples(st.integers(0, 255), words),
    min_size=1,
    max_size=5,
    unique_by=(lambda x: x[0], lambda x: x[1].lower()),
)
registrations = st.lists(
    gen.weighted(
        (3, st.tuples(st.just("channel"), words, gen.prims, rates, st.booleans())),
        (2, st.tuples(st.just("enum"), words, labels)),
        (2, st.tuples(st.just("enum channel"), words, st.integers(0, 5), rates)),
        (2, st.tuples(st.just("group"), words)),
        (
            3,
            st.tuples(
                st.just("member"), st.integers(0, 3), words, gen.prims, rates
            ),
        ),
        (
            1,
            st.tuples(
                st.just("enum member"),
                st.integers(0, 3),
                words,
                st.integers(0, 5),
                rates,
            ),
        ),
    ),
    max_size=14,
)


class Registered:
    """What was registered with a server."""

    def __init__(self, server: TelemetryServer) -> None:
        self.server = server
        telem = server.daemons.get("telemetry")
        assert telem is not None
        self.env: Any = telem
        self.channels: Dict[str, Any] = {}
        self.enums: Dict[str, Any] = {}
        self.groups: List[Tuple[int, str, Dict[str, str]]] = []
        self.order: List[str] = []

    def apply(self, steps: Any) -> None:
        """Register."""
        for step in steps:
            getattr(self, step[0].replace(" ", "_"))(*step[1:])

    def channel(
        self, name: str, prim: str, rate: float, track: bool
    ) -> None:
        """A channel."""
        if self.env.has_channel(name):
            return
        self.env.add_channel(
            name, Primitive[prim], rate, **envs.options(track_change=track)
        )
        self.channels[name] = (prim, rate, None)

    def enum(self, name: str, pairs: Any) -> None:
        """An enumeration."""
        enum = user_enum(name, {int(k): v for k, v in pairs})
        if self.env.has_enum(enum) or self.env.type_registry.get_id(enum.name) is not None:
            return
        self.env.add_enum(enum)
        self.enums[enum.name] = {int(k): v.lower() for k, v in pairs}
        self.order.append(enum.name)

    def enum_channel(self, name: str, which: int, rate: float) -> None:
        """A channel of an enumeration."""
        if not self.order or self.env.has_channel(name):
            return
        enum = self.order[which % len(self.order)]
        self.env.add_enum_channel(name, enum, rate)
        self.channels[name] = ("UINT8", rate, enum)

    def group(self, name: str) -> None:
        """A channel group."""
        groups = self.server.channel_groups
        if groups.get_id(name) is None:
            self.groups.append((groups.create_group(name), name, {}))

    def member(self, which: int, name: str, prim: str, rate: float) -> None:
        """A channel of a group."""
        if self.groups:
            ident, group, members = self.groups[which % len(self.groups)]
            full = f"{group}.{name}"
            if not self.env.has_channel(full):
                self.server.channel_groups.add_channel(
                    ident, name, Primitive[prim], rate
                )
                self.channels[full] = (prim, rate, None)
                members[name] = full

    def enum_member(
        self, which: int, name: str, enum: int, rate: float
    ) -> None:
        """A channel of an enumeration, in a group."""
        if self.groups and self.order:
            ident, group, members = self.groups[which % len(self.groups)]
            full = f"{group}.{name}"
            kind = self.order[enum % len(self.order)]
            if not self.env.has_channel(full):
                self.server.channel_groups.add_enum_channel(
                    ident, name, kind, rate
                )
                self.channels[full] = ("UINT8", rate, kind)
                members[name] = full

    def described(self, data: Any, services: Optional[List[str]]) -> None:
        """Compare what's described with what was registered."""
        for key in ["channel", "enum", "type", "channel_groups", "services"]:
            check(
                isinstance(data, dict) and key in data,
                f"registries don't describe {key}: {short(data)}",
            )
        chans = data["channel"]
        for name, (prim, rate, _) in self.channels.items():
            ident = chans["mappings"].get(name)
            same(ident, self.env.channel_registry.get_id(name), f"id of {name!r}")
            desc = chans["channels"].get(str(ident))
            check(
                isinstance(desc, dict) and desc.get("name") == name,
                f"channel {ident} is described as {desc}",
            )
            same(
                desc["type"]["name"], prim.lower(), f"type of channel {name!r}"
            )
            if math.isfinite(rate):
                same(desc["rate"], rate, f"rate of channel {name!r}")
        same(
            len(chans["channels"]),
            self.env.channel_registry.count(),
            "channels described",
        )
        for name, pairs in self.enums.items():
            ident = data["enum"]["mappings"].get(name)
            same(ident, self.env.enum_registry.get_id(name), f"id of {name!r}")
            desc = data["enum"]["enums"].get(str(ident))
            same(
                {int(k): v for k, v in desc["mappings"].items()},
                pairs,
                f"values of enum {name!r}",
            )
        self.types(data["type"])
        groups = data["channel_groups"]
        same(
            len(groups["channel_groups"]), len(self.groups), "groups described"
        )
        for ident, name, members in self.groups:
            same(groups["mappings"].get(name), ident, f"id of group {name!r}")
            same(
                groups["channel_groups"][str(ident)],
                {
                    "name": name,
                    "channels": {
                        x: self.env.channel_registry.get_id(full)
                        for x, full in members.items()
                    },
                },
                f"group {name!r}",
            )
        if services is not None:
            same(
                sorted(data["services"]["mappings"]),
                sorted(services),
                "services described",
            )

    def types(self, data: Any) -> None:
        """Compare the types described."""
        for name in [x.value.name for x in Primitive] + list(self.enums):
            ident = data["mappings"].get(name)
            same(ident, self.env.type_registry.get_id(name), f"type id of {name!r}")
            check(str(ident) in data["types"], f"type {name!r} isn't described")
        same(
            len(data["types"]), self.env.type_registry.count(), "types described"
        )


# --- whole servers ----------------------------------------------------------


def listening() -> int:
    """Sockets of this process that accept connections."""
    inodes = set()
    with open("/proc/self/net/tcp", encoding="ascii") as table:
        for line in list(table)[1:]:
            part = line.split()
            if part[3] == "0A":
                inodes.add(f"socket:[{part[9]}]")
    count = 0
    for name in os.listdir("/proc/self/fd"):
        try:
            count += os.readlink(f"/proc/self/fd/{name}") in inodes
        except OSError:
            pass
    return count


class Boot:
    """A server, what it should do, and its clients."""

    def __init__(self, case: Any, stack: Any) -> None:
        self.case = case
        self.stack = stack
        self.address = local()
        self.hosts: Dict[str, Optional[Host]] = {}
        self.names: Dict[str, str] = {}
        services: Dict[str, Any] = {}
        for num, key in enumerate(SERVICES):
            enabled, host, name = case["services"][num]
            self.names[key] = f"{key}.{num}" if name else key
            self.hosts[key] = None
            if host == "zero":
                self.hosts[key] = Host(self.address, 0)
            elif host == "fixed":
                self.hosts[key] = Host(self.address, free_port(self.address))
            services[key] = Service(self.names[key], self.hosts[key], enabled)
        self.on = [
            key for num, key in enumerate(SERVICES) if case["services"][num][0]
        ]
        self.udp = []
        for _ in range(case["udp"] or 0):
            sock = stack.socket(socket.AF_INET, socket.SOCK_DGRAM)
            sock.bind((self.address, 0))
            self.udp.append(sock)
        services["udp"] = (
            None
            if case["udp"] is None
            else [Host(*x.getsockname()) for x in self.udp]
        )
        before = listening()
        self.server = TelemetryServer(
            0.01,
            0.02,
            case["metrics"],
            services=TelemetryServices(**services),
        )
        stack.callback(self.cleanup)
        self.base = before
        self.reg = Registered(self.server)
        # something to send
        self.reg.channel("vt.always", "UINT8", 0.0, False)
        self.reg.apply(case["before"])
        self.ticks: Dict[str, int] = {}
        self.ended = threading.Event()
        self.addresses: Dict[str, Tuple[str, int]] = {}

    def cleanup(self) -> None:
        """What this leaves open on purpose."""
        for daemon in list(self.server.daemons.daemons.values()):
            sock = getattr(daemon, "server", None)
            if sock is not None and hasattr(sock, "server_close"):
                sock.server_close()
            elif sock is not None:
                for one in sock.sockets or []:
                    one._sock.close()
            loop = getattr(daemon, "eloop", None)
            if loop is not None and not loop.is_running():
                loop.close()
        self.server.server.server_close()

    def app(self, name: str) -> None:
        """Register an application."""
        self.ticks[name] = 0

        def setup(groups: Any, data: Any) -> None:
            """Called once."""
            check(
                "group" not in data, f"{name} is set up twice"
            )
            data["group"] = groups.create_group(f"{name}_group")
            groups.add_channel(data["group"], "x", Primitive.UINT32, 0.05)

        def loop(groups: Any, data: Any) -> None:
            """Called periodically."""
            with groups.group(data["group"]) as chans:
                chans["x"] += 1
            self.ticks[name] += 1

        check(
            self.server.register_application(name, 0.02, setup, loop),
            f"application {name} can't be registered",
        )

    def start(self) -> None:
        """Start, everything enabled has to come up."""
        call(self.server.start_all, "starting the server")

    def registry(self) -> Dict[str, Any]:
        """Services the registry reports."""
        reg = self.reg.env.registries["services"]
        return {
            name: reg.get_item(ident)
            for name, ident in list(reg.data["mappings"].items())
        }

    def served(self) -> None:
        """Exactly the enabled services are served."""
        names = sorted(self.names[x] for x in self.on)
        until(lambda: sorted(self.registry()) == names)
        same(sorted(self.registry()), names, "services in the registry")
        ports = []
        for key in self.on:
            addrs = self.registry()[self.names[key]]
            check(len(addrs) == 1, f"{key} is at {addrs}")
            host, port = addrs[0][:2]
            want = self.hosts[key]
            check(port != 0, f"{key} is reported at port {port}")
            if want is not None:
                same(host, want.address, f"address of {key}")
                if want.port:
                    same(port, want.port, f"port of {key}")
            self.addresses[key] = (
                "127.0.0.1" if host == "0.0.0.0" else host,
                port,
            )
            ports.append(port)
        check(len(set(ports)) == len(ports), f"services share a port: {ports}")
        same(
            listening() - self.base,
            len(self.on),
            "ports that accept connections",
        )
        for key in SERVICES:
            host = self.hosts[key]
            if key not in self.on and host is not None and host.port:
                try:
                    socket.create_connection(tuple(host), LIMIT).close()
                except ConnectionRefusedError:
                    continue
                check(False, f"{key} is disabled, but it's listening")

    def connect(self) -> None:
        """Every enabled service serves."""
        if "http" in self.on:
            same(
                request(self.addresses["http"], "GET", "/id"),
                (200, str(self.reg.env.app_id.get())),
                "application id",
            )
        self.wsc = self.wst = self.tcp = None
        if "websocket_cmd" in self.on:
            self.wsc = self.websocket("websocket_cmd")
            status, text = ws_command(self.wsc, json.dumps({"command": "help"}))
            check(
                status and {"channel", "daemon", "udp"} <= set(json.loads(text)),
                f"websocket command help: {status} {text}",
            )
        if "websocket_tlm" in self.on:
            self.wst = self.websocket("websocket_tlm")
            self.frame(lambda: self.wst.recv(LIMIT), "websocket telemetry")
        if "tcp_tlm" in self.on:
            self.tcp = socket.create_connection(self.addresses["tcp_tlm"], LIMIT)
            self.stack.callback(self.tcp.close)
            self.frame(lambda: self.tcp.recv(100), "tcp telemetry")
        for num, sock in enumerate(self.udp):
            # the first one discovers the MTU
            sock.recv(70000)
            self.frame(lambda: sock.recv(70000), f"udp client {num}")
        same(len(self.server.udp_clients.clients), len(self.udp), "udp clients")

    def frame(self, recv: Callable[[], Any], what: str) -> None:
        """Telemetry arrives."""
        try:
            data = recv()
        except (
            OSError,
            websockets.exceptions.WebSocketException,
        ) as exc:
            raise Violation(f"{what} isn't served: {exc!r}") from exc
        check(
            isinstance(data, bytes) and len(data) > 4,
            f"{what} serves {short(data)}",
        )

    def websocket(self, key: str) -> Any:
        """Connect."""
        host, port = self.addresses[key]
        try:
            conn = websockets.sync.client.connect(
                f"ws://{host}:{port}",
                open_timeout=LIMIT,
                close_timeout=0.5,
                max_size=None,
            )
        except (OSError, websockets.exceptions.WebSocketException) as exc:
            raise Violation(f"{key} isn't served: {exc!r}") from exc
        self.stack.callback(conn.close)
        return conn

    def described(self) -> None:
        """What HTTP says about registries."""
        if "http" in self.on:
            where = self.addresses["http"]
            for args in ({}, {"indent": "1"}):
                status, text = request(where, "GET", "/types", args)
                same(status, 200, "status of types")
                self.reg.types(strict(text, "types"))
                # applications register a group each
                status, text = request(where, "GET", "/registries", args)
                same(status, 200, "status of registries")
                same("\n" in text, bool(args), "registries in several lines")
                data = strict(text, "registries")
                if not self.ticks:
                    self.reg.described(
                        data, [self.names[x] for x in self.on]
                    )

    def stop(self) -> None:
        """Stop completely."""
        how = self.case["stop"]
        waiter = threading.Thread(target=self.wait, daemon=True)
        waiter.start()
        if how == "http" and "http" in self.on:
            where = self.addresses["http"]
            ident = self.reg.env.app_id.get()
            for bad in ({}, {"app_id": str(ident ^ 1)}, {"app_id": "x"}):
                status, _ = request(where, "POST", "/shutdown", bad)
                check(status >= 400, f"shutdown with {bad} isn't refused")
            check(not self.ended.is_set(), "stopped by a refused request")
            same(
                request(where, "POST", "/shutdown", {"app_id": str(ident)}),
                (200, "success"),
                "shutdown",
            )
        elif how == "timeout":
            pass
        else:
            call(self.server.stop_all, "stopping the server")
            if how == "twice":
                call(self.server.stop_all, "stopping the server again")
        check(
            self.ended.wait(LIMIT),
            "waiting for the server's shutdown doesn't end",
            key="shutdown",
        )
        waiter.join()

    def wait(self) -> None:
        """What an application does."""
        if self.case["stop"] == "timeout":
            self.server.await_shutdown(0.05)
        else:
            self.server.await_shutdown()
        self.ended.set()

    def stopped(self, threads: List[threading.Thread]) -> None:
        """Nothing is left."""
        for name, daemon in self.server.daemons.daemons.items():
            same(daemon.get_state(), DaemonState.IDLE, f"state of {name}")
        same(self.server.get_state(), DaemonState.IDLE, "state of http")
        names = set(self.server.daemons.daemons) | {self.server.name}
        for thread in threads:
            # connections of a http server may wait for requests
            if thread.name in names or not thread.daemon:
                thread.join(LIMIT)
                check(not thread.is_alive(), f"thread {thread.name} still runs")
        if "http" in self.on:
            try:
                socket.create_connection(self.addresses["http"], LIMIT).close()
                check(False, "http is still served")
            except ConnectionRefusedError:
                pass
        for conn in (self.wsc, self.wst):
            if conn is not None:
                try:
                    while True:
                        conn.recv(LIMIT)
                except websockets.exceptions.ConnectionClosed:
                    pass
                except TimeoutError:
                    check(False, "a websocket connection stays open")
        if self.tcp is not None:
            try:
                while self.tcp.recv(65536):
                    pass
            except ConnectionError:
                pass
            except TimeoutError:
                check(False, "a tcp connection stays open")
        ticks = dict(self.ticks)
        for sock in self.udp:
            sock.setblocking(False)
            try:
                while True:
                    sock.recv(70000)
            except BlockingIOError:
                pass
        time.sleep(0.03)
        same(self.ticks, ticks, "application iterations after stopping")
        for sock in self.udp:
            try:
                data = sock.recv(70000)
                check(False, f"a udp client gets {len(data)} bytes after stopping")
            except BlockingIOError:
                pass


def call(func: Callable[[], Any], what: str) -> None:
    """Something that has to work."""
    try:
        func()
    except Exception as exc:
        import traceback

        where = traceback.extract_tb(exc.__traceback__)[-1]
        raise Violation(
            f"{what} raises {type(exc).__name__} {exc} in {where.name}",
            key=f"{what}: {type(exc).__name__}",
        ) from exc


def run(case: Any, rec: Rec) -> None:
    """One server, from its start to its end."""
    for attempt in range(3):
        try:
            with scope() as stack, Delay(case["late"]) as delay:
                session(case, rec, stack, delay)
            return
        except Violation:
            # ports that are picked before they are used may be taken by
            # somebody else meanwhile
            picked = any(x[0] and x[1] == "none" for x in case["services"])
            if not picked or attempt == 2:
                raise


def session(case: Any, rec: Rec, stack: Any, delay: Delay) -> None:
    """See run."""
    boot = Boot(case, stack)
    for num in range(case["apps"][0]):
        boot.app(f"early{num}")
    boot.start()
    try:
        if case["scale"] is not None:
            call(lambda: boot.server.scale_speed(case["scale"]), "scaling time")
        if not case["hasty"]:
            boot.served()
            for num in range(case["apps"][1]):
                boot.app(f"late{num}")
            if not case["apps"][1]:
                half = len(case["after"]) // 2
                boot.reg.apply(case["after"][:half])
                if half:
                    boot.described()
                boot.reg.apply(case["after"][half:])
            boot.connect()
            boot.described()
            for name in boot.ticks:
                check(
                    until(lambda: boot.ticks[name] > 1),
                    f"application {name} doesn't run",
                )
            check(
                until(
                    lambda: all(
                        x.get_state() == DaemonState.RUNNING
                        for x in boot.server.daemons.daemons.values()
                    )
                ),
                f"not everything runs: {boot.server.daemons.states()}",
            )
            for name in case["pause"]:
                if boot.wsc is not None:
                    ws_command(
                        boot.wsc,
                        json.dumps(
                            {
                                "command": "daemon",
                                "data": {"operation": "pause", "daemons": [name]},
                            }
                        ),
                    )
                else:
                    boot.server.daemons.perform(name, DaemonOperation.PAUSE)
        else:
            boot.wsc = boot.wst = boot.tcp = None
            if "http" in boot.on:
                boot.addresses["http"] = boot.server.server.server_address
                if case["stop"] == "http":
                    boot.served()
        boot.stop()
    finally:
        if not boot.ended.is_set():
            emergency(boot.server)
    boot.stopped(delay.started)
    rec.nontrivial(len(boot.on) in (1, 2, 3))
    rec.label("+".join(boot.on) or "nothing")
    rec.label("stop: " + case["stop"])


def emergency(server: TelemetryServer) -> None:
    """End what can be ended, whatever is broken."""
    daemons = [server] + list(server.daemons.daemons.values())
    for _ in range(2):
        for daemon in daemons:
            try:
                daemon.unpause()
                daemon.stop(2)
            except Exception:  # pylint: disable=broad-except
                pass
        time.sleep(0.05)
    server.close()


service = st.tuples(
    st.booleans(), st.sampled_from(["none", "zero", "zero", "fixed"]), st.booleans()
)
names_of_threads = st.sampled_from(
    ["time", "telemetry", "stream", "command"] + SERVICES + ["early0", "late0"]
)
boots = st.fixed_dictionaries(
    {
        "services": st.tuples(service, service, service, service),
        "udp": st.sampled_from([None, 0, 1, 2]),
        "metrics": st.sampled_from([None, 0.1]),
        "before": registrations,
        "after": registrations,
        "apps": st.tuples(
            st.sampled_from([0, 0, 1, 2]), st.sampled_from([0, 0, 0, 1])
        ),
        "late": st.lists(
            st.tuples(names_of_threads, st.integers(1, 30)), max_size=3
        ),
        "hasty": st.sampled_from([False, False, True]),
        "scale": st.sampled_from([None, None, 1.0, 0.5, 2.0]),
        "pause": st.lists(
            st.sampled_from(["telemetry", "stream", "command", "time", "early0"]),
            max_size=2,
        ),
        "stop": st.sampled_from(["call", "twice", "http", "http", "timeout"]),
    }
)

# --- commands ---------------------------------------------------------------


def quiet_server(steps: Any, stack: Any) -> Tuple[TelemetryServer, Registered]:
    """A server that only executes commands."""
    address = local()
    off = {
        key: Service(key, enabled=False) for key in ["websocket_tlm", "tcp_tlm"]
    }
    server = TelemetryServer(
        0.01,
        0.02,
        services=TelemetryServices(
            http=Service("http", Host(address, 0)),
            websocket_cmd=Service("websocket_cmd", Host(address, 0)),
            **off,
        ),
    )
    reg = Registered(server)
    reg.apply(steps)

    def close() -> None:
        """Close everything."""
        emergency(server)
        daemon: Any = server.daemons.get("websocket_cmd")
        if daemon.server is not None:
            for one in daemon.server.sockets or []:
                one._sock.close()
        if not daemon.eloop.is_running():
            daemon.eloop.close()

    stack.callback(close)
    return server, reg


def values(reg: Registered) -> List[Any]:
    """All values."""
    chans = reg.env.channel_registry
    return [repr(chans.get_item(x).get()) for x in range(chans.count())]


def run_commands(case: Any, rec: Rec) -> None:
    """Commands have the effect they have when they're executed directly."""
    with scope() as stack:
        server, reg = quiet_server(case["before"], stack)
        twin, other = quiet_server(case["before"], stack)
        for name in ("command", "websocket_cmd"):
            check(
                server.daemons.perform(
                    name,
                    DaemonOperation.START,
                    first_start=True,
                    service_registry=reg.env.registries["services"],
                ),
                f"{name} can't be started",
            )
        check(server.start(), "http can't be started")
        check(
            twin.daemons.perform("command", DaemonOperation.START),
            "command can't be started",
        )
        http_addr = server.server.server_address
        services = reg.env.registries["services"]
        check(
            until(lambda: services.get_id("websocket_cmd") is not None),
            "websocket_cmd isn't in the registry",
        )
        host, port = services.get_item(services.get_id("websocket_cmd"))[0][:2]
        conn = websockets.sync.client.connect(
            f"ws://{host}:{port}", open_timeout=LIMIT, close_timeout=0.5
        )
        stack.callback(conn.close)
        twin_cmd: Any = twin.daemons.get("command")
        names = list(reg.channels)
        good = 0
        for how, kind, arg in case["steps"]:
            if kind == "raw":
                message: Any = arg
            elif kind == "junk":
                message = bytes.fromhex(arg[1:])
            elif kind == "describe":
                status, text = request(
                    http_addr, "GET", "/registries", {"indent": "1"} if arg else {}
                )
                same(status, 200, "status of registries")
                reg.described(strict(text, "registries"), None)
                continue
            else:
                message = command(kind, arg, names, reg)
            if how in ("GET", "POST") and isinstance(message, dict):
                params = {
                    k: str(v)
                    for k, v in message.get("data", {}).items()
                    # blank values aren't arguments
                    if str(v) and k not in ("command", "data")
                }
                try:
                    urlencode(params)
                    urlencode({"": message["command"]})
                except UnicodeEncodeError:
                    continue
                if not message["command"]:
                    status, _ = request(http_addr, how, "/command", params)
                    same(status, 400, f"status of {how} without a command")
                    continue
                status, text = request(
                    http_addr,
                    how,
                    "/command",
                    {"command": message["command"], **params},
                )
                want = twin_cmd.execute(
                    {"command": message["command"], "data": params}
                )
                what = f"{how} command {short(message)}"
                same(status, 200 if want[0] else 400, f"status of {what}")
                if want[0]:
                    same(text, want[1], f"answer to {what}")
                good += want[0]
            else:
                if isinstance(message, dict):
                    message = json.dumps(message)
                got = ws_command(conn, message)
                try:
                    plain = json.loads(message)
                except (ValueError, RecursionError):
                    check(not got[0], f"command {short(message)} succeeds")
                    continue
                want = twin_cmd.execute(plain)
                same(got, want, f"answer to websocket command {short(message)}")
                good += want[0]
            same(values(reg), values(other), f"values after {short(message)}")
        rec.nontrivial(good >= 3)
        rec.count("commands that succeed", good)


def command(kind: str, arg: Any, names: List[str], reg: Registered) -> Any:
    """A command."""
    if kind == "help":
        return {"command": "help", "data": {"indent": 1} if arg else {}}
    if kind == "unknown":
        return {"command": arg, "data": {}}
    oper, which, how, value = arg
    data: Dict[str, Any] = {"operation": oper}
    name = names[which % len(names)] if names else "nothing"
    if how != "id":
        data["channel_name"] = name
    if how != "name":
        ident = reg.env.channel_registry.get_id(name)
        data["channel_id"] = ident if how != "wrong" else (ident or 0) + 1
    if value is not None:
        data["value"] = value
    return {"command": "channel", "data": data}


command_steps = st.tuples(
    st.sampled_from(["GET", "POST", "WS", "WS"]),
    st.just(""),
    st.just(None),
).flatmap(
    lambda x: gen.weighted(
        (
            8,
            st.tuples(
                st.just(x[0]),
                st.just("channel"),
                st.tuples(
                    st.sampled_from(
                        ["set", "set", "get", "increment", "decrement", "other"]
                    ),
                    st.integers(0, 12),
                    st.sampled_from(["name", "name", "id", "both", "wrong"]),
                    st.one_of(
                        st.none(),
                        st.integers(-3, 300),
                        st.booleans(),
                        st.floats(-1e3, 1e3),
                        words,
                        labels.map(lambda x: x[0][1]),
                        st.sampled_from([float("nan"), float("inf"), [], {}]),
                    ),
                ),
            ),
        ),
        (1, st.tuples(st.just(x[0]), st.just("help"), st.booleans())),
        (1, st.tuples(st.just(x[0]), st.just("unknown"), words | st.just(""))),
        (
            1,
            st.tuples(
                st.just("WS"),
                st.just("raw"),
                st.sampled_from(
                    ["", "{", "null", "[]", '"x"', "3", "[" * 30000, "9" * 5000]
                    + ['{"command": 3}', '{"command": "help", "data": 3}', "NaN"]
                ),
            ),
        ),
        (
            1,
            st.tuples(
                st.just("WS"),
                st.just("junk"),
                st.sampled_from(["xff", "x00", "xfffe", "x7b7d", "x"]),
            ),
        ),
        (1, st.tuples(st.just("GET"), st.just("describe"), st.booleans())),
    )
)
commands = st.fixed_dictionaries(
    {
        "before": registrations.filter(lambda x: len(x) > 1),
        "steps": st.lists(command_steps, min_size=4, max_size=14),
    }
)

# --- descriptions while something is registered ------------------------------


class Described:
    """The handlers of a server, without one."""

    def __init__(self, steps: Any) -> None:
        self.env: Any = TelemetryDaemon(
            "telemetry", 1400, 1.0, TimeKeeper("time", 0.5)
        )
        self.channel_groups = ChannelGroupRegistry(self.env)
        self.env.registries["channel_groups"] = self.channel_groups
        self.env.registries["services"] = ServiceRegistry([("x", [("a", 1)])])
        self.daemons = {"telemetry": self.env}
        self.handlers: Dict[str, Any] = {}
        register_http_handlers(self, self.env, CommandQueueDaemon("command"))
        self.reg = Registered(self)  # type: ignore
        self.reg.group("first")
        for name in ("one", "two", "three"):
            self.reg.member(0, name, "UINT8", 0.5)
        self.reg.apply(steps)

    def add_handler(
        self, method: str, path: str, handle: Any, *_: Any
    ) -> None:
        """Remember a handler."""
        self.handlers[f"{method} {path}"] = handle


def run_meanwhile(case: Any, rec: Rec) -> None:
    """Registering something meanwhile never spoils a description."""
    key = f"GET {case['what']}"

    def describe(world: Described) -> Any:
        """The description."""
        return world.handlers[key](None, dict.fromkeys(["indent"]))

    total = sched.points(lambda: describe(Described(case["before"])), True)
    world = Described(case["before"])
    total = sched.points(lambda: describe(world), True)
    spots = sorted({int(x / 1000 * total) for x in case["spots"]})
    for spot in spots:
        world = Described(case["before"])
        before = dict(world.reg.channels), len(world.reg.enums)
        # as if it had been looked up before
        group = world.channel_groups.get_item(0)
        assert group is not None

        def register() -> None:
            """Register something."""
            if case["step"][0] == "direct":
                group.add_channel("new", Primitive.UINT8, 0.5)
            else:
                world.reg.apply([case["step"]])

        one, two, where, _ = sched.preempt(
            lambda: describe(world),
            register,
            spot,
            True,
        )
        same(two, None, f"registering {case['step']} at {where}")
        check(
            isinstance(one, tuple) and one[0] is True,
            f"{key} fails when {case['step']} happens at {where}: {short(one)}",
            key="meanwhile",
        )
        data = strict(one[1], f"{key}, {case['step']} at {where}")
        if case["what"] == "registries":
            for name in before[0]:
                check(
                    name in data["channel"]["mappings"],
                    f"{name!r} isn't described",
                )
        rec.count("schedules")
    rec.nontrivial(len(spots) > 3)


PAIRS = [
    ("channel", "new", "UINT8", 0.5, False),
    ("enum", "new_enum", [(0, "zero"), (5, "five")]),
    ("enum channel", "new", 0, 0.5),
    ("group", "new"),
    ("member", 0, "new", "UINT8", 0.5),
    ("direct",),
    ("direct",),
    ("enum member", 0, "new", 0, 0.5),
]
meanwhile = st.fixed_dictionaries(
    {
        "before": registrations,
        "what": st.sampled_from(["registries", "registries", "types"]),
        "step": st.sampled_from(PAIRS),
        "spots": st.lists(st.integers(0, 999), min_size=8, max_size=24),
    }
)

# --- the program ---------------------------------------------------------------

programs = st.fixed_dictionaries(
    {
        "fixed": st.tuples(*[st.booleans()] * 4),
        "interface": st.booleans(),
        "basis": st.sampled_from([None, 0.5, 0.25]),
        "scale": st.sampled_from([None, 1.0, 0.5, 2.0]),
        "command": st.booleans(),
        "end": st.sampled_from(["http", "http", "http", "uptime", "interrupt"]),
        "again": st.sampled_from([0, 0, 1]),
    }
)
FLAGS = ["--port", "--ws-cmd-port", "--ws-tlm-port", "--tcp-tlm-port"]
NAMES = ["http", "websocket_command", "websocket_telemetry", "tcp_telemetry"]


def run_program(case: Any, rec: Rec) -> None:
    """The program serves what it's told to, until it's told to end."""
    for attempt in range(3):
        ports = [0] * 4
        for num, fixed in enumerate(case["fixed"]):
            # its port is how it's found
            if fixed or num == 0:
                ports[num] = free_port("0.0.0.0")
        args = [sys.executable, "-m", "vtelem"]
        for flag, port in zip(FLAGS, ports):
            if port:
                args += [flag, str(port)]
        if case["interface"]:
            args += ["-i", "lo"]
        if case["basis"] is not None:
            args += ["-a", str(case["basis"])]
        if case["scale"] is not None:
            args += ["--time-scale", str(case["scale"])]
        # with a margin for slow machines
        args += ["-u", "1.5" if case["end"] == "uptime" else "600"]
        with scope() as stack:
            log = stack.enter_context(tempfile.TemporaryFile())
            def launch() -> Any:
                """Run it."""
                proc = subprocess.Popen(
                    args,
                    stdin=subprocess.DEVNULL,
                    stdout=log,
                    stderr=log,
                    cwd="/",
                    # interrupts aren't ignored, however this was started
                    preexec_fn=lambda: signal.signal(
                        signal.SIGINT, signal.SIG_DFL
                    ),
                )
                stack.callback(proc.wait)
                stack.callback(proc.kill)
                return proc

            def output() -> str:
                """What it printed."""
                log.seek(0)
                return log.read().decode(errors="replace")

            try:
                # the second one uses ports that were just used
                for _ in range(1 + case["again"]):
                    program(case, launch(), ports)
            except Violation as exc:
                text = output()
                if attempt < 2 and "in use" in text:
                    continue
                raise Violation(
                    f"{' '.join(args[2:])}: {exc} {text[-400:]}", key=exc.key
                ) from exc
            text = output()
            check(
                "Exception in thread" not in text,
                f"{' '.join(args[2:])}: {text[text.find('Exception in'):][-1500:]}",
                key="traceback",
            )
            break
    rec.nontrivial(any(case["fixed"][1:]) and case["end"] != "uptime")
    rec.label("end: " + case["end"])


def program(case: Any, proc: Any, ports: List[int]) -> None:
    """One run of the program."""
    where = ("127.0.0.1", ports[0])

    def serving() -> bool:
        """Whether it's there."""
        try:
            socket.create_connection(where, LIMIT).close()
        except ConnectionRefusedError:
            return proc.poll() is not None
        return True

    check(until(serving, 3 * LIMIT), "http isn't served", key="program")
    if case["end"] != "uptime":
        status, ident = request(where, "GET", "/id")
        same(status, 200, "status of id")

        def services() -> Any:
            """What's reported."""
            text = request(where, "GET", "/registries")[1]
            data = strict(text, "registries")["services"]
            return {
                name: data["services"][str(x)][0]
                for name, x in data["mappings"].items()
            }

        until(lambda: set(services()) == set(NAMES))
        got = services()
        same(sorted(got), sorted(NAMES), "services reported")
        used = []
        for name, port in zip(NAMES, ports):
            addr = got[name]
            check(addr[1], f"{name} is reported at {addr}")
            if port:
                same(addr[1], port, f"port of {name}")
            same(
                addr[0],
                "127.0.0.1" if case["interface"] else "0.0.0.0",
                f"address of {name}",
            )
            used.append(addr[1])
            try:
                # those to tcp are still open when the program ends
                sock = socket.create_connection(("127.0.0.1", addr[1]), LIMIT)
                if name != "tcp_telemetry":
                    sock.close()
            except ConnectionRefusedError:
                check(False, f"{name} doesn't listen at its port {addr[1]}")
        same(len(set(used)), 4, "different ports")
        if case["command"]:
            conn = websockets.sync.client.connect(
                f"ws://127.0.0.1:{got['websocket_command'][1]}",
                open_timeout=LIMIT,
                close_timeout=0.5,
            )
            status, _ = ws_command(conn, json.dumps({"command": "help"}))
            check(status, "the command fails")
            if case["end"] != "http":
                conn.close()
        if case["end"] == "http":
            same(
                request(where, "POST", "/shutdown", {"app_id": ident}),
                (200, "success"),
                "shutdown",
            )
        else:
            proc.send_signal(signal.SIGINT)
        sock.settimeout(LIMIT)
        try:
            while sock.recv(65536):
                pass
        except ConnectionError:
            pass
        except TimeoutError:
            check(False, "a tcp connection stays open")
        sock.close()
    try:
        code = proc.wait(2 * LIMIT)
    except subprocess.TimeoutExpired:
        code = "still running"
    same(code, 0, f"result of the program ({case['end']})")


# --- its arguments -------------------------------------------------------------

rates = st.sampled_from([0.03125, 0.05, 0.0625, 0.125, 0.25, 0.5, 1.5, 3.0])
given_ports = st.one_of(st.just(0), st.integers(20000, 29999))
arguments = st.fixed_dictionaries(
    {
        "options": st.fixed_dictionaries(
            {},
            optional={
                "tick": rates,
                "telem-rate": rates,
                "metrics-rate": rates,
                "time-scale": st.sampled_from([0.0, 0.25, 1.0, 2.0, 100.0]),
                "app-id": st.floats(0, 1) | st.floats(1, 1e6),
                "uptime": st.sampled_from([0.5, 1.0, 30.0]),
                "port": given_ports,
                "ws-cmd-port": given_ports,
                "ws-tlm-port": given_ports,
                "tcp-tlm-port": given_ports,
                "interface": st.just("lo"),
                "dir": st.sampled_from([".", "/", "/usr", "/usr/../tmp"]),
                "verbose": st.just(True),
            },
        ),
        "short": st.booleans(),
        "joined": st.booleans(),
        "argv": st.booleans(),
        "wrong": gen.weighted(
            (4, st.none()),
            (
                1,
                st.sampled_from(
                    [
                        ["--version"],
                        ["--help"],
                        ["--nothing"],
                        ["extra"],
                        ["--tick", "x"],
                        ["--port", "1.5"],
                        ["-u"],
                        ["-i", "no such interface"],
                    ]
                ),
            ),
        ),
    }
).filter(
    lambda x: len({v for k, v in x["options"].items() if "port" in k and v})
    == len([v for k, v in x["options"].items() if "port" in k and v])
)
SHORT = {
    "port": "-p",
    "tick": "-t",
    "app-id": "-a",
    "uptime": "-u",
    "interface": "-i",
    "dir": "-C",
    "verbose": "-v",
}


def run_arguments(case: Any, rec: Rec) -> None:
    """What the program is told is what its server gets."""
    apart(lambda inner, alone: told(case, inner, alone), rec)


def told(case: Any, rec: Rec, alone: bool) -> None:
    """Run the program in this process, up to where it waits for its end."""
    opts = case["options"]
    argv = ["vtelem"]
    for name, value in opts.items():
        if "port" in name and not alone:
            continue
        flag = SHORT[name] if case["short"] and name in SHORT else f"--{name}"
        if value is True:
            argv.append(flag)
        elif case["joined"] and flag.startswith("--"):
            argv.append(f"{flag}={value}")
        else:
            argv += [flag, str(value)]
    argv += case["wrong"] or []
    seen: List[Any] = []

    def instead(self: Any, timeout: Any = None) -> None:
        """Look at everything, then end it."""
        self.daemons.await_started()
        seen.append(looked(self, timeout))
        until(lambda: self.get_state().name == "RUNNING")
        self.stop_all()

    TelemetryServer.await_shutdown = instead  # type: ignore
    before = os.getcwd()
    for handler in list(logging.getLogger().handlers):
        logging.getLogger().removeHandler(handler)
    logging.disable(logging.NOTSET)
    sink = os.open(os.devnull, os.O_WRONLY)
    os.dup2(sink, 1)
    os.dup2(sink, 2)
    if case["argv"]:
        code = entry_point(list(argv))
    else:
        sys.argv = argv
        code = entry_point()
    same(os.getcwd(), before, "the directory after it ended")
    wrong = case["wrong"]
    if wrong:
        same(
            code, 0 if wrong[0] in ("--version", "--help") else 2, f"{argv}"
        )
        same(seen, [], f"servers of {argv}")
        return
    same(code, 0, f"result of {argv}")
    same(len(seen), 1, f"servers of {argv}")
    got = seen[0]
    here = os.path.realpath(opts.get("dir", before))
    same(got.pop("dir"), here, f"{argv}: directory")
    same(got.pop("blocked"), False, f"{argv}: whether interrupts are blocked")
    same(
        got.pop("level"),
        logging.DEBUG if "verbose" in opts else logging.INFO,
        f"{argv}: verbosity",
    )
    hosts = got.pop("services")
    addr = "127.0.0.1" if "interface" in opts else "0.0.0.0"
    for key, name in (
        ("port", "http"),
        ("ws-cmd-port", "websocket_command"),
        ("ws-tlm-port", "websocket_telemetry"),
        ("tcp-tlm-port", "tcp_telemetry"),
    ):
        same(hosts[name][0], addr, f"{argv}: address of {name}")
        port = opts.get(key, 0) if alone else 0
        check(hosts[name][1] == port or not port, f"{argv}: {hosts}")
    for key, value in got.items():
        if key == "app-id":
            if key in opts:
                basis = opts[key]
                basis = 1.0 / basis if basis > 1.0 else basis
                same(value, int(65535 * basis), f"{argv}: application")
        elif key == "uptime" or key in opts:
            same(value, opts.get(key), f"{argv}: {key}")
        elif key == "time-scale":
            same(value, 1.0, f"{argv}: {key}")
        else:
            check(value > 0, f"{argv}: {key}")
    rec.nontrivial(len(opts) > 3)


def looked(server: Any, timeout: Any) -> Any:
    """What a server is like."""
    env = server.daemons.get("telemetry")
    mask = signal.pthread_sigmask(signal.SIG_BLOCK, [])

    def data() -> Any:
        """The services known."""
        return json.loads(env.registries["services"].describe())

    until(lambda: set(data()["mappings"]) == set(NAMES))
    services = data()
    return {
        "tick": server.time_keeper.function["rate"],
        "telem-rate": env.function["rate"],
        "metrics-rate": env.get_metric("metrics_rate"),
        "time-scale": server.time_keeper.scalar,
        "app-id": env.app_id.get(),
        "uptime": timeout,
        "dir": os.getcwd(),
        "blocked": signal.SIGINT in mask,
        "level": logging.getLogger().getEffectiveLevel(),
        "services": {
            name: services["services"][str(x)][0]
            for name, x in services["mappings"].items()
        },
    }


PROP = Prop(
    "C26",
    [
        Facet(
            "services",
            lambda: boots,
            run,
            180,
            thorough=5000,
            rule="whole servers of every subset of services, with other "
            "registrations and applications, are started, used, paused and "
            "stopped; non-trivial = some services are enabled, some aren't",
        ),
        Facet(
            "commands",
            lambda: commands,
            run_commands,
            240,
            thorough=8000,
            rule="commands over HTTP and WebSocket, malformed ones included, "
            "compared with executing them directly in a twin; non-trivial = "
            "three or more succeed",
        ),
        Facet(
            "meanwhile",
            lambda: meanwhile,
            run_meanwhile,
            600,
            thorough=12000,
            rule="something is registered at a bytecode of a description, "
            "which is still valid; non-trivial = more than three points",
        ),
        Facet(
            "program",
            lambda: programs,
            run_program,
            42,
            thorough=1500,
            rule="the program is started with various options, used and ended "
            "by request, time or signal; non-trivial = ports are given, it's "
            "ended from outside",
        ),
        Facet(
            "arguments",
            lambda: arguments,
            run_arguments,
            250,
            thorough=4000,
            rule="the program's arguments and the server it makes of them; "
            "non-trivial = more than three options",
        ),
    ],
    assumptions=[
        "open connections to the HTTP server that sent no request yet, and "
        "the listening sockets of the other services, stay after stopping",
        "ports that are picked before they are used may be taken by somebody "
        "else meanwhile: such a start is tried again",
    ],
    budget=110,
)
