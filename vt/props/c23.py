"""C23: the HTTP interface answers every request correctly and completely."""

from __future__ import annotations

import html
import json
import os
import socket
import socketserver
import ssl
import threading
from typing import Any, Dict, List, Optional, Tuple
from urllib.parse import quote_plus

from hypothesis import strategies as st
from vtelem.classes.http_request_mapper import MapperAwareRequestHandler
from vtelem.daemon.http import HttpDaemon
from vtelem.mtu import Host

from vt import gen, net
from vt.core import Facet, Prop, Rec, check, same, short

DATA = os.path.join(
    os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))),
    "data",
)
LIMIT = 30.0
# connections that break print a traceback otherwise
socketserver.BaseServer.handle_error = lambda *_: None  # type: ignore

texts = gen.weighted(
    (3, st.text(alphabet="abc XYZ09.:'<>&", max_size=30)),
    (
        3,
        st.text(
            alphabet=st.characters(codec="utf-8", exclude_categories=("Cs",)),
            max_size=20,
        ),
    ),
    (1, st.sampled_from(["", "naïve ☃", "one\ntwo", "a\r\nX: y\r\n\r\nz", "%s"])),
    (1, st.integers(1, 30).map(lambda x: "äb☃" * (x * 400))),
)
handlers = st.fixed_dictionaries(
    {
        "method": st.sampled_from(["GET", "GET", "POST"]),
        "path": st.sampled_from(
            ["a", "b", "a/b", "Mixed", "UPPER/x", "c.json", "d-1_2", "example"]
        ),
        "how": gen.weighted(
            (6, st.just("good")), (3, st.just("bad")), (1, st.just("raise"))
        ),
        "text": texts,
        "description": texts,
        "type": st.sampled_from([None, "text/plain", "text/html"]),
        "extra": st.sampled_from([None, {"X-Extra": "some value"}]),
    }
)
words = st.text(
    alphabet=st.characters(codec="utf-8", exclude_categories=("Cs",)),
    min_size=1,
    max_size=8,
)
forms = st.dictionaries(
    words, st.lists(words, min_size=1, max_size=3), max_size=4
)
labels = st.text(
    alphabet=st.characters(
        codec="utf-8", exclude_categories=("Cs", "Cc"), exclude_characters='"\\'
    ),
    min_size=1,
    max_size=10,
)
labels = gen.weighted(
    (2, labels),
    (2, st.text(alphabet="ab:=; ,'", min_size=1, max_size=6)),
    (1, st.sampled_from(["C:dir", "a=b", "a;b", "x; name=y", "'q'"])),
)
contents = gen.weighted(
    (3, texts),
    (2, st.text(alphabet="a:-\r\n ", max_size=12)),
    (1, st.sampled_from(["", "\r\n", "\r\n\r\n", "--", "Content-Type: x\r\n\r\ny"])),
)
parts = st.fixed_dictionaries(
    {
        "name": labels,
        "filename": st.one_of(st.none(), labels),
        "content": contents,
        "header": st.sampled_from([None, "Content-Type: text/plain", "X-U: http://a:80/"]),
        "late": st.booleans(),
    }
)
# (RFC 2046 5.1.1), without quotes at both ends
boundaries = gen.weighted(
    (
        1,
        st.sampled_from(
            ["x", "----WebKitFormBoundaryAbC123", "=_part=0", "a'b(c)+_,-./:=?d"]
        ),
    ),
    (
        1,
        st.builds(
            "{0}{1}{2}".format,
            st.sampled_from(["--", "-", "_", "=", "(", "a", "7"]),
            st.text(alphabet="abC789-_.+'(),/:=?", min_size=4, max_size=66),
            st.sampled_from(["--", "-", "_", "=", ")", "a", "7"]),
        ),
    ),
    (
        1,
        st.builds(
            "{0}{1}{0}".format,
            st.sampled_from(["--", "-", "_", "+", ".", "a"]),
            st.text(alphabet="abC789-_.+'", min_size=4, max_size=66),
        ),
    ),
)


def separate(spec: Any) -> bool:
    """Whether no content looks like a boundary."""
    mark = "--" + spec["boundary"]
    return not any(
        mark in str(x) for part in spec["parts"] for x in part.values()
    )


multiparts = st.fixed_dictionaries(
    {
        "parts": st.lists(parts, max_size=4),
        "boundary": boundaries,
        "quote": st.booleans(),
        "charset": st.sampled_from(["", "; charset=utf-8", "before"]),
        "preamble": st.sampled_from(["", "", "ignored\r\n"]),
        "epilogue": st.sampled_from(["", "\r\n", "\r\nignored\r\n"]),
        "case": st.booleans(),
    }
).filter(separate)
bodies = gen.weighted(
    (3, st.tuples(st.just("none"), st.just(0))),
    (4, st.tuples(st.just("form"), forms)),
    (6, st.tuples(st.just("parts"), multiparts)),
    (
        1,
        st.tuples(
            st.just("odd"),
            st.fixed_dictionaries(
                {
                    "type": st.sampled_from(
                        [
                            "application/json",
                            "multipart/form-data",
                            "multipart/form-data; boundary=",
                            "multipart/form-data; boundary=x",
                            "application/x-www-form-urlencoded",
                            "nonsense",
                            "/",
                            "",
                        ]
                    ),
                    "data": gen.weighted(
                        (2, st.binary(max_size=60)),
                        (
                            2,
                            st.sampled_from(
                                [
                                    b"--x\r\n\r\n\r\n--x--",
                                    b"--x\r\nContent-Disposition: form-data; "
                                    b"name=\r\n\r\nv\r\n--x--\r\n",
                                    b"--x\r\nContent-Disposition:\r\n\r\nv"
                                    b"\r\n--x--\r\n",
                                    b'--x\r\nContent-Disposition: a; n="v; ='
                                    b"\r\n\r\n\r\n--x--",
                                    b"--x\r\n:\r\n=\r\n\r\n--x--x--x",
                                ]
                            ),
                        ),
                        (1, st.just(b"\xff\xfe=\x80")),
                    ),
                    "length": st.sampled_from(
                        [None, None, None, "abc", "-1", "", "1.5", "0x10", "+"]
                    ),
                }
            ),
        ),
    ),
)
known = st.fixed_dictionaries(
    {
        "which": st.integers(0, 7),
        "method": gen.weighted(
            (6, st.just("right")),
            (2, st.just("HEAD")),
            (2, st.just("other")),
            (1, st.just("PUT")),
        ),
        "query": gen.weighted((2, st.just({})), (1, forms)),
        "body": bodies,
        "version": st.sampled_from(["1.1", "1.1", "1.0"]),
        "split": st.booleans(),
    }
)
unknown = st.fixed_dictionaries(
    {
        "method": st.sampled_from(["GET", "HEAD", "POST", "PUT", "DELETE"]),
        "path": st.sampled_from(
            ["/zzz", "/a/", "/b/c", "/%61", "/~x", "/zzz?a=1", "/a/b/c", "/\xe9"]
        ),
    }
)
garbage = gen.weighted(
    (2, st.binary(min_size=1, max_size=60)),
    (
        4,
        st.sampled_from(
            [
                b"\r\n\r\n",
                b"GET\r\n\r\n",
                b"GET / HTTP/9.9\r\n\r\n",
                b"GET / HTTP/1.1\r\n" + b"A: b\r\n" * 200 + b"\r\n",
                b"GET /" + b"a" * 70000 + b" HTTP/1.1\r\n\r\n",
                b"GET http://[ HTTP/1.1\r\n\r\n",
                b"GET //[ HTTP/1.1\r\n\r\n",
                b"POST /a HTTP/1.1\r\nContent-Length: 1000\r\n"
                b"Content-Type: application/x-www-form-urlencoded\r\n\r\na=b",
                b"GET / HTTP/1.1\r\nno colon\r\n\r\n",
                b"\x16\x03\x01\x02\x00\x01\x00\x01\xfc",
                b"GET /?a=%ff%zz&&==&b HTTP/1.1\r\n\r\n",
            ]
        ),
    ),
)
cases = st.fixed_dictionaries(
    {
        "handlers": st.lists(handlers, min_size=1, max_size=5),
        "steps": st.lists(
            gen.weighted(
                (8, st.tuples(st.just("known"), known)),
                (2, st.tuples(st.just("unknown"), unknown)),
                (1, st.tuples(st.just("index"), st.just(0))),
                (1, st.tuples(st.just("garbage"), garbage)),
                (1, st.tuples(st.just("idle"), garbage)),
                (1, st.tuples(st.just("late"), handlers)),
            ),
            min_size=1,
            max_size=10,
        ),
        "mapper": gen.weighted((9, st.just(True)), (1, st.just(False))),
    }
)


class Response:
    """A parsed response."""

    def __init__(self, data: bytes, what: str) -> None:
        check(data, f"{what}: no response")
        head, sep, self.body = data.partition(b"\r\n\r\n")
        check(sep, f"{what}: the response has no end of headers: {head[:80]!r}")
        lines = head.split(b"\r\n")
        words_ = lines[0].split(b" ", 2)
        check(
            len(words_) >= 2 and words_[0].startswith(b"HTTP/1."),
            f"{what}: status line {lines[0]!r}",
        )
        self.status = int(words_[1])
        self.headers: Dict[str, str] = {}
        for line in lines[1:]:
            name, colon, value = line.partition(b":")
            check(colon, f"{what}: header {line!r}")
            key = name.decode("latin-1").lower()
            check(key not in self.headers, f"{what}: {key} is sent twice")
            self.headers[key] = value.strip().decode("latin-1")
        self.what = what

    def complete(self, head: bool) -> None:
        """The body is as long as announced."""
        length = self.headers.get("content-length")
        check(length is not None, f"{self.what}: no Content-Length")
        if head:
            same(self.body, b"", f"{self.what}: body of a HEAD response")
        else:
            same(
                len(self.body), int(length or 0), f"{self.what}: body length"
            )


class Client:
    """Talks to a server without knowing HTTP better than it has to."""

    def __init__(self, stack: net.Scope, address: Any) -> None:
        self.stack = stack
        self.address = address

    def open(self) -> socket.socket:
        """Connect."""
        sock = self.stack.socket(socket.AF_INET, socket.SOCK_STREAM)
        sock.connect(self.address)
        return sock

    def ask(
        self, data: bytes, what: str, split: bool = False, finish: bool = False
    ) -> bytes:
        """Send a request and read all that comes."""
        sock = self.open()
        out = b""
        try:
            if split:
                half = len(data) // 2
                sock.sendall(data[:half])
                sock.sendall(data[half:])
            else:
                sock.sendall(data)
            if finish:
                sock.shutdown(socket.SHUT_WR)
        except OSError:
            pass
        while True:
            try:
                part = sock.recv(65536)
            except socket.timeout:
                check(False, f"{what}: no answer in {LIMIT} s", "hang")
            except OSError:
                break
            if not part:
                break
            out += part
        sock.close()
        return out


def request(
    method: str,
    path: str,
    version: str = "1.1",
    headers: Optional[Dict[str, str]] = None,
    body: bytes = b"",
) -> bytes:
    """A request's bytes."""
    head = f"{method} {path} HTTP/{version}\r\nHost: x\r\n"
    for key, value in (headers or {}).items():
        head += f"{key}: {value}\r\n"
    return head.encode("latin-1") + b"\r\n" + body


def encode_form(form: Dict[str, List[str]]) -> str:
    """As browsers do it."""
    return "&".join(
        f"{quote_plus(key)}={quote_plus(value)}"
        for key, values in form.items()
        for value in values
    )


def encode_parts(spec: Any) -> Tuple[str, bytes]:
    """The content type and the body."""
    bound = spec["boundary"]
    out = spec["preamble"].encode()
    for part in spec["parts"]:
        field = f'Content-Disposition: form-data; name="{part["name"]}"'
        if part["filename"] is not None:
            field += f'; filename="{part["filename"]}"'
        lines = [field]
        if part["header"]:
            lines.insert(0 if part["late"] else 1, part["header"])
        out += f"--{bound}\r\n".encode()
        out += ("\r\n".join(lines) + "\r\n\r\n").encode()
        out += part["content"].encode() + b"\r\n"
    out += f"--{bound}--".encode() + spec["epilogue"].encode()
    shown = bound
    if spec["quote"] or any(x in bound for x in "(),/:=?"):
        shown = f'"{bound}"'
    ctype = "Multipart/Form-Data" if spec["case"] else "multipart/form-data"
    field = f"boundary={shown}"
    if spec["charset"] == "before":
        return f"{ctype}; charset=utf-8; {field}", out
    return f"{ctype}; {field}{spec['charset']}", out


def judge_parts(got: Any, spec: Any, what: str) -> None:
    """The parts as the handler got them."""
    check(isinstance(got, list), f"{what}: parts are {short(got)}")
    same(len(got), len(spec["parts"]), f"{what}: number of parts")
    for have, part in zip(got, spec["parts"]):
        field = have["headers"].get("content-disposition")
        want = {"type": "form-data", "name": part["name"]}
        if part["filename"] is not None:
            want["filename"] = part["filename"]
        same(field, want, f"{what}: disposition of a part")
        body = "\r\n".join(have["body"])
        check(
            body in (part["content"], part["content"] + "\r\n"),
            f"{what}: a part's content is {short(body)} instead of "
            f"{short(part['content'])}",
        )
        if part["header"]:
            name, _, value = part["header"].partition(":")
            same(
                have["headers"].get(name.lower()),
                value.strip(),
                f"{what}: {name} of a part",
            )


class Bench:
    """A server and what was registered."""

    def __init__(self, case: Any, stack: net.Scope) -> None:
        self.daemon = HttpDaemon(
            "http", Host("127.0.0.1", 0), MapperAwareRequestHandler
        )
        self.calls: List[Tuple[int, str, Dict[str, Any]]] = []
        self.specs: List[Any] = []
        self.table: Dict[Tuple[str, str], int] = {}
        for spec in case["handlers"]:
            self.register(spec)
        stack.callback(self.end)
        check(self.daemon.start(), "the server can't be started")
        self.client = Client(stack, self.daemon.server.server_address)

    def register(self, spec: Any) -> None:
        """Register a handler."""
        num = len(self.specs)

        def handle(inst: Any, data: Any) -> Tuple[bool, str]:
            self.calls.append((num, inst.command, dict(data)))
            if spec["how"] == "raise":
                raise RuntimeError("a handler that fails")
            return spec["how"] == "good", spec["text"]

        args = {} if spec["type"] is None else {"response_type": spec["type"]}
        self.daemon.add_handler(
            spec["method"],
            spec["path"],
            handle,
            spec["description"],
            spec["extra"],
            **args,
        )
        self.specs.append(spec)
        self.table[(spec["method"], spec["path"].lower())] = num

    def end(self) -> None:
        """Stop it, which takes some time."""

        def stop() -> None:
            self.daemon.stop()
            self.daemon.close()

        threading.Thread(target=stop, daemon=True).start()

    def known(self, step: Any, what: str, rec: Rec) -> None:
        """A request for the path of a handler."""
        target = self.specs[step["which"] % len(self.specs)]
        method = target["method"]
        if step["method"] == "other":
            method = "GET" if method == "POST" else "POST"
        elif step["method"] != "right":
            method = step["method"]
        path = "/" + target["path"]
        want: Dict[str, Any] = {}
        if step["query"]:
            path += "?" + encode_form(step["query"])
            want.update(step["query"])
        headers: Dict[str, str] = {}
        body = b""
        kind, arg = step["body"] if method == "POST" else ("none", 0)
        if kind == "form":
            form = {k: v for k, v in arg.items() if k not in want}
            want.update(form)
            body = encode_form(form).encode()
            headers["Content-Type"] = "application/x-www-form-urlencoded"
        elif kind == "parts":
            headers["Content-Type"], body = encode_parts(arg)
        elif kind == "odd":
            headers["Content-Type"] = arg["type"]
            body = arg["data"]
        if method == "POST":
            headers["Content-Length"] = str(len(body))
            if kind == "odd" and arg["length"] is not None:
                headers["Content-Length"] = arg["length"]
        before = len(self.calls)
        resp = Response(
            self.client.ask(
                request(method, path, step["version"], headers, body),
                what,
                step["split"],
            ),
            what,
        )
        calls = self.calls[before:]
        head = method == "HEAD"
        resp.complete(head)
        num = self.table.get(
            ("GET" if head else method, target["path"].lower())
        )
        rec.label(kind)
        if method == "PUT":
            same(resp.status, 501, f"{what}: status")
            return
        if kind == "odd":
            if not 400 <= resp.status < 600:
                check(
                    num is not None and calls, f"{what}: status {resp.status}"
                )
            return
        if num is None:
            same(resp.status, 404, f"{what}: status")
            same(calls, [], f"{what}: handlers called")
            return
        same([x[:2] for x in calls], [(num, method)], f"{what}: handlers called")
        data = calls[0][2]
        if kind == "parts":
            judge_parts(data.pop("parts", None), arg, what)
        same(data, want, f"{what}: what the handler got")
        spec = self.specs[num]
        if spec["how"] == "good":
            same(resp.status, 200, f"{what}: status")
            if not head:
                same(resp.body, spec["text"].encode(), f"{what}: body")
            same(
                resp.headers.get("content-length"),
                str(len(spec["text"].encode())),
                f"{what}: length",
            )
            same(
                resp.headers.get("content-type"),
                f"{spec['type'] or 'application/json'}; charset=utf-8",
                f"{what}: type",
            )
            for key, value in (spec["extra"] or {}).items():
                same(resp.headers.get(key.lower()), value, f"{what}: {key}")
        else:
            check(
                400 <= resp.status < 600,
                f"{what}: status {resp.status} although the handler fails",
            )
            if spec["how"] == "bad":
                same(resp.status, 400, f"{what}: status")
                if not head:
                    check(
                        html.escape(spec["text"], quote=False)
                        in resp.body.decode("utf-8"),
                        f"{what}: the reason is missing",
                    )

    def index(self, what: str) -> None:
        """The list of handlers."""
        resp = Response(self.client.ask(request("GET", "/"), what), what)
        resp.complete(False)
        same(resp.status, 200, f"{what}: status")
        same(
            resp.headers.get("content-type"),
            "application/json; charset=utf-8",
            f"{what}: type",
        )
        got = json.loads(resp.body.decode("utf-8"))
        have = sorted(
            (method, x["path"], x["description"])
            for method, items in got.items()
            for x in items
            if x["path"] != "/"
        )
        want = sorted(
            (method, "/" + path, self.specs[num]["description"])
            for (method, path), num in self.table.items()
        )
        same(have, want, f"{what}: handlers listed")


def run(case: Any, rec: Rec) -> None:
    """Requests of all kinds, one after the other."""
    with net.scope() as stack:
        bench = Bench(case, stack)
        if not case["mapper"]:
            del bench.daemon.server.mapper  # type: ignore
            resp = Response(
                bench.client.ask(request("GET", "/a"), "no mapper"), "no mapper"
            )
            same(resp.status, 501, "status without a mapper")
            resp.complete(False)
            return
        answered = 0
        for num, (kind, arg) in enumerate(case["steps"]):
            what = f"request {num} ({kind})"
            if kind == "known":
                bench.known(arg, what, rec)
                answered += 1
            elif kind == "unknown":
                head = arg["method"] == "HEAD"
                raw = bench.client.ask(request(arg["method"], arg["path"]), what)
                resp = Response(raw, what)
                resp.complete(head)
                same(
                    resp.status,
                    501 if arg["method"] in ("PUT", "DELETE") else 404,
                    f"{what}: status",
                )
            elif kind == "index":
                bench.index(what)
            elif kind == "garbage":
                bench.client.ask(arg, what, finish=True)
            elif kind == "late":
                bench.register(arg)
            else:
                # somebody who never finishes a request
                bench.client.open().sendall(arg[: len(arg) // 2])
        bench.index("afterwards")
        rec.nontrivial(answered > 1)


# -- encrypted ----------------------------------------------------------------

tls = st.fixed_dictionaries(
    {
        "before": st.lists(
            st.sampled_from(["idle", "plain", "noise", "close", "reset", "good"]),
            min_size=1,
            max_size=5,
        ),
        "text": texts,
    }
)


def run_tls(case: Any, rec: Rec) -> None:
    """Clients that do anything before one that's fine."""
    with net.scope() as stack:
        daemon = HttpDaemon(
            "https", Host("127.0.0.1", 0), MapperAwareRequestHandler
        )
        daemon.use_tls(
            os.path.join(DATA, "tls.key"), os.path.join(DATA, "tls.cert")
        )
        daemon.add_handler("GET", "x", lambda *_: (True, case["text"]))
        check(daemon.get_base_url().startswith("https://"), "no https url")
        address = daemon.server.server_address

        def end() -> None:
            """Stop it in the background."""

            def stop() -> None:
                daemon.stop()
                daemon.close()

            threading.Thread(target=stop, daemon=True).start()

        stack.callback(end)
        check(daemon.start(), "the server can't be started")
        context = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        context.check_hostname = False
        context.verify_mode = ssl.CERT_NONE
        client = Client(stack, address)

        def good(what: str) -> None:
            """A client that's fine."""
            raw = client.open()
            raw.settimeout(10.0)
            try:
                sock = context.wrap_socket(raw)
                sock.sendall(request("GET", "/x"))
                out = b""
                while True:
                    part = sock.recv(65536)
                    if not part:
                        break
                    out += part
            except socket.timeout:
                check(False, f"{what}: the server doesn't answer", "hang")
            sock.close()
            resp = Response(out, what)
            resp.complete(False)
            same(resp.status, 200, f"{what}: status")
            same(resp.body, case["text"].encode(), f"{what}: body")

        for num, kind in enumerate(case["before"]):
            what = f"client {num} ({kind})"
            if kind == "good":
                good(what)
                continue
            sock = client.open()
            if kind == "plain":
                sock.sendall(request("GET", "/x"))
            elif kind == "noise":
                sock.sendall(b"\x16\x03\x01\x00\x05hello" * 3)
            elif kind == "close":
                sock.close()
            elif kind == "reset":
                sock.setsockopt(
                    socket.SOL_SOCKET, socket.SO_LINGER, b"\x01\0\0\0\0\0\0\0"
                )
                sock.close()
        good("a client afterwards")
        rec.nontrivial(len(case["before"]) > 1)


PROP = Prop(
    "C23",
    [
        Facet(
            "requests",
            lambda: cases,
            run,
            3500,
            thorough=60000,
            rule="handlers (good, failing, raising) and requests for known "
            "and unknown paths, queries, forms, multipart bodies, malformed "
            "and unfinished requests; non-trivial = more than one request for "
            "the path of a handler",
        ),
        Facet(
            "tls",
            lambda: tls,
            run_tls,
            200,
            thorough=3000,
            rule="encrypted servers with clients that don't speak; "
            "non-trivial = more than one of them",
        ),
    ],
    more=2,
    assumptions=[
        "form fields have values, names of query and form fields differ",
        "contents of a part don't hold the boundary, bodies are UTF-8 text "
        "(otherwise only an answer is required)",
    ],
)
