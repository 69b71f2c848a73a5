"""C09: a message cache saved and reopened continues as if never closed."""

from __future__ import annotations

import os
import zlib
from typing import Any, Dict, List, Tuple

from hypothesis import strategies as st
from vtelem.message.cache import MessageCache, from_temp_dir
from vtelem.message.framer import MessageFramer
from vtelem.telemetry.environment import TelemetryEnvironment
from vtelem.types.frame import MessageType

from vt import gen
from vt.core import Facet, Prop, Rec, check, same

TYPES = list(MessageType)
Key = Tuple[int, int]

payloads = st.one_of(
    st.binary(min_size=1, max_size=10),
    st.tuples(st.integers(0, 255), st.integers(1, 90)).map(
        lambda x: bytes((x[0] * 7 + i) % 256 for i in range(x[1]))
    ),
)


@st.composite
def cases(draw: Any) -> Any:
    """Messages and a history of a cache."""
    return {
        "room": draw(st.integers(3, 20)),
        "messages": draw(
            st.lists(
                st.tuples(
                    st.one_of(st.integers(0, 1), st.integers(0, 5)), payloads
                ),
                min_size=2,
                max_size=6,
            )
        ),
        "ops": draw(
            st.lists(
                gen.weighted(
                    (12, st.tuples(st.just("ingest"), st.integers(0, 60))),
                    (2, st.tuples(st.just("write"), st.just(0))),
                    (2, st.tuples(st.just("reopen"), st.just(0))),
                    (1, st.tuples(st.just("both"), st.just(0))),
                    (1, st.tuples(st.just("crash"), st.just(0))),
                    (1, st.tuples(st.just("clean"), st.just(0))),
                ),
                min_size=10,
                max_size=50,
            )
        ),
        "finish": draw(st.sampled_from(["forward", "backward"])),
    }


class World:
    """A cache on disk and what it has to know."""

    def __init__(self, folder: str, messages: Any, room: int) -> None:
        self.folder = folder
        self.told: List[Any] = []
        env = TelemetryEnvironment(64, 0.0, app_id_basis=0.5, use_crc=False)
        framer = MessageFramer(26 + room, 0.5, False)
        self.frames: List[Tuple[Key, int, Any]] = []
        self.total: Dict[Key, int] = {}
        self.text: Dict[Key, bytes] = {}
        self.number: Dict[Key, int] = {}
        for kind, text in messages:
            mtype = TYPES[kind]
            key = (mtype.value, zlib.crc32(text))
            if key in self.text:
                continue
            frames, _ = framer.serialize_message(text, 0.0, mtype)
            self.text[key] = text
            self.total[key] = len(frames)
            for index, frame in enumerate(frames):
                parsed = env.decode_frame(bytes(frame.raw[0]), frame.raw[1])
                check(parsed is not None, "a message frame doesn't decode")
                self.number[key] = parsed.body["message_number"]
                self.frames.append((key, index, parsed))
        self.fragments: Dict[Key, set] = {}
        self.done: set = set()
        self.saved: Tuple[Dict[Key, set], set] = ({}, set())
        # after a crash fragments may be known although they weren't saved
        self.vague: Dict[Key, set] = {}
        self.cache = self.open(set())

    def open(self, want: set) -> Any:
        """Open the cache, announcements are those of complete messages."""
        self.told.clear()
        consumers = {
            x: [lambda *y: self.told.append(y)] for x in MessageType
        }
        cache = MessageCache(self.folder, consumers)
        self.announced(want, "when opening")
        return cache

    def announced(self, want: set, what: str) -> None:
        """Exactly these messages were announced, with the right contents."""
        got = [
            (x[0].value, zlib.crc32(bytes(x[2]))) for x in self.told
        ]
        same(sorted(got), sorted(want), f"announcements {what}")
        for mtype, number, text in self.told:
            key = (mtype.value, zlib.crc32(bytes(text)))
            same(bytes(text), self.text[key], f"contents announced {what}")
            same(number, self.number[key], f"number announced {what}")
        self.told.clear()

    def compare(self, what: str) -> None:
        """The cache agrees about every message."""
        for mtype in TYPES:
            same(
                sorted(self.cache.complete(mtype)),
                sorted(k[1] for k in self.done if k[0] == mtype.value),
                f"complete {mtype.name} messages {what}",
            )
        for key, text in self.text.items():
            got = self.cache.content(MessageType(key[0]), key[1])
            if key in self.done:
                check(got is not None, f"message without contents {what}")
                same(bytes(got[1]), text, f"contents {what}")
                same(got[0], self.number[key], f"number {what}")
            else:
                check(got is None, f"contents of a partial message {what}")

    def ingest(self, pos: int) -> None:
        """Hand in a frame."""
        key, index, parsed = self.frames[pos % len(self.frames)]
        have = self.fragments.setdefault(key, set())
        have.add(index)
        self.told.clear()
        self.cache.ingest(parsed)
        if key in self.done:
            self.announced(set(), "for a repeated fragment")
        elif len(have) == self.total[key]:
            self.done.add(key)
            self.announced({key}, "for the last fragment")
        elif self.told:
            # only fragments that were on disk before a crash can explain it
            check(
                len(have | self.vague.get(key, set())) == self.total[key],
                "announced before the last fragment arrived",
            )
            self.done.add(key)
            self.announced({key}, "for the last fragment")

    def step(self, act: str, arg: int) -> None:
        """Apply one operation."""
        if act == "ingest":
            self.ingest(arg)
            return
        if act in ("write", "both"):
            self.cache.write()
            self.saved = (
                {k: set(v) for k, v in self.fragments.items()},
                set(self.done),
            )
        if act in ("reopen", "both"):
            if act == "reopen":
                self.step("write", 0)
            self.cache = self.open(self.done)
        elif act == "crash":
            for key, have in self.fragments.items():
                self.vague.setdefault(key, set()).update(have)
            self.fragments = {k: set(v) for k, v in self.saved[0].items()}
            self.done = set(self.saved[1])
            self.cache = self.open(self.done)
        elif act == "clean":
            self.cache.clean()
            self.fragments = {}
            self.done = set()
            self.saved = ({}, set())
            self.vague = {}
            self.told.clear()
        self.compare(f"after {act}")


def run(case: Any, rec: Rec) -> None:
    """Any history of a cache ends with every message complete."""
    world = World(rec.tmpdir() + "/cache", case["messages"], case["room"])
    partial = 0
    for act, arg in case["ops"]:
        if act != "ingest" and any(
            v and k not in world.done for k, v in world.fragments.items()
        ):
            partial += 1
            rec.label(f"{act}-with-partial")
        world.step(act, arg)
    world.compare("after the history")
    order = list(range(len(world.frames)))
    if case["finish"] == "backward":
        order.reverse()
    for pos in order:
        world.ingest(pos)
    same(len(world.done), len(world.text), "messages complete in the end")
    world.compare("after everything was sent")
    world.step("reopen", 0)
    kinds = [k[0] for k in world.text]
    if len(kinds) > len(set(kinds)):
        rec.label("several-of-a-type")
    rec.nontrivial(partial)


# -- caches side by side ------------------------------------------------------

temporary = st.fixed_dictionaries(
    {
        "messages": st.lists(
            st.tuples(st.integers(0, 5), payloads), min_size=1, max_size=4
        ),
        "room": st.integers(3, 20),
        "order": st.booleans(),
    }
)


def run_temporary(case: Any, rec: Rec) -> None:
    """A temporary cache works alike and leaves nothing behind."""
    base = rec.tmpdir()
    old = os.environ.get("TMPDIR")
    import tempfile

    saved = tempfile.tempdir
    tempfile.tempdir = base
    try:
        world = World(base + "/other", case["messages"], case["room"])
        told: List[Any] = []
        with from_temp_dir({MessageType.TEXT: [lambda *x: told.append(x)]}) as one:
            check(
                one.cache_dir.startswith(base),
                "a temporary cache isn't in the temporary directory",
            )
            frames = world.frames if case["order"] else world.frames[::-1]
            for _, __, parsed in frames:
                one.ingest(parsed)
            for key, text in world.text.items():
                got = one.content(MessageType(key[0]), key[1])
                check(got is not None, "message without contents")
                same(bytes(got[1]), text, "contents")
            same(
                len(told),
                sum(1 for k in world.text if k[0] == MessageType.TEXT.value),
                "announcements",
            )
        left = sorted(set(os.listdir(base)) - {"other", "other_fragments"})
        same(left, [], "files left by a temporary cache")
        world.compare("of another cache")
    finally:
        tempfile.tempdir = saved
        if old is not None:
            os.environ["TMPDIR"] = old
    rec.nontrivial(len(world.text) > 1)


# -- one that is reopened and one that isn't ----------------------------------

twins = st.fixed_dictionaries(
    {
        "messages": st.lists(
            st.tuples(st.integers(0, 1), payloads), min_size=1, max_size=3
        ),
        "rooms": st.lists(st.integers(3, 24), min_size=1, max_size=3),
        "ops": st.lists(
            gen.weighted(
                (10, st.tuples(st.just("ingest"), st.integers(0, 80))),
                (3, st.tuples(st.just("rest"), st.integers(0, 80))),
                (3, st.tuples(st.just("reopen"), st.just(0))),
                (1, st.tuples(st.just("clean"), st.just(0))),
            ),
            min_size=4,
            max_size=40,
        ),
    }
)


def run_twins(case: Any, rec: Rec) -> None:
    """Messages sent more than once, in fragments of different sizes."""
    env = TelemetryEnvironment(64, 0.0, app_id_basis=0.5, use_crc=False)
    sets: List[List[Any]] = []
    keys = set()
    for room in case["rooms"]:
        framer = MessageFramer(26 + room, 0.5, False)
        for kind, text in case["messages"]:
            frames, _ = framer.serialize_message(text, 0.0, TYPES[kind])
            keys.add((TYPES[kind], zlib.crc32(text)))
            sets.append(
                [env.decode_frame(bytes(x.raw[0]), x.raw[1]) for x in frames]
            )
    every = [x for part in sets for x in part]
    check(all(x is not None for x in every), "a message frame doesn't decode")
    base = rec.tmpdir()
    told: Dict[str, List[Any]] = {"kept": [], "reopened": []}
    caches: Dict[str, Any] = {}

    def opened(name: str) -> Any:
        consumers = {
            x: [
                lambda *y: told[name].append(
                    (y[0].value, y[1], bytes(y[2]))
                )
            ]
            for x in MessageType
        }
        return MessageCache(f"{base}/{name}", consumers)

    def state(name: str) -> Any:
        """All that a cache tells."""
        cache = caches[name]
        contents = []
        for mtype, crc in sorted(keys, key=lambda x: (x[0].value, x[1])):
            got = cache.content(mtype, crc)
            contents.append(got if got is None else (got[0], bytes(got[1])))
        return [sorted(cache.complete(x)) for x in MessageType], contents

    for name in told:
        caches[name] = opened(name)
    partial = 0
    for num, (act, arg) in enumerate(case["ops"]):
        what = f"after step {num} ({act})"
        if act == "reopen":
            partial += any(x is None for x in state("kept")[1]) and num > 0
            caches["reopened"].write()
            caches["reopened"] = opened("reopened")
        elif act == "clean":
            for cache in caches.values():
                cache.clean()
        else:
            frames = [every[arg % len(every)]]
            if act == "rest":
                frames = sets[arg % len(sets)]
            for name, cache in caches.items():
                for frame in frames:
                    cache.ingest(frame)
        if act != "reopen":
            same(told["reopened"], told["kept"], f"announcements {what}")
        for name in told:
            told[name].clear()
        same(state("reopened"), state("kept"), f"messages {what}")
    rec.nontrivial(partial and len(case["rooms"]) > 1)


PROP = Prop(
    "C09",
    [
        Facet(
            "histories",
            lambda: cases(),
            run,
            600,
            rule="histories of ingesting, writing, reopening (also without "
            "saving) and cleaning; non-trivial = one of these happened while "
            "a message was partial",
        ),
        Facet(
            "twins",
            lambda: twins,
            run_twins,
            500,
            rule="messages sent in fragments of several sizes to a cache that "
            "is reopened and one that isn't; non-trivial = reopened before "
            "everything was complete, several sizes",
        ),
        Facet(
            "temporary",
            lambda: temporary,
            run_temporary,
            80,
            rule="temporary caches; non-trivial = several messages",
        ),
    ],
    more=2,
    assumptions=[
        "a file write is atomic; a crash happens between calls",
        "what wasn't saved may or may not be known after a crash",
    ],
)
