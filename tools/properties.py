#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below."""

import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(ident, title, statement, over, text, why, files, mechanism, **kw):
    """Define one property."""
    anchors = {
        "files": files,
        "mechanism": [{"name": a, "where": b} for a, b in mechanism],
        "observe_at": kw.get("observe", []),
        "hook_needed": None,
    }
    PROPS.append(
        (
            {
                "id": ident,
                "title": title,
                "statement": statement,
                "quantifier": {"over": over, "text": text},
                "why_tests_cant": why,
                "anchors": anchors,
            },
            kw.get("technique", ""),
            kw.get("note", ""),
        )
    )


prop(
    "C01",
    "Every frame sent follows the documented wire format and respects the MTU",
    "Every data, event and message frame produced is byte-for-byte what the "
    "protocol document prescribes for its header fields, identifiers, values "
    "and times (big-endian, element count right, CRC-32 footer over everything "
    "before it exactly when checksums are enabled). No frame exceeds the "
    "current MTU, no data or event frame is without elements, and an element that doesn't fit is "
    "refused without changing the frame.",
    ["inputs", "histories", "configurations"],
    "all channel types and values, channel counts, MTUs (also reduced at run "
    "time), application ids, checksum on/off, message lengths and times",
    "tests encode a handful of fixed channels at one or two MTUs and decode "
    "them with the library's own decoder, so a symmetric change of layout, a "
    "boundary off by one at some MTU or a rare type combination passes",
    [
        "vtelem/frame/__init__.py",
        "vtelem/frame/channel.py",
        "vtelem/frame/message.py",
        "vtelem/frame/framer.py",
        "vtelem/channel/framer.py",
        "vtelem/classes/byte_buffer.py",
        "vtelem/enums/primitive.py",
    ],
    [
        ("frame space accounting and finalize", "vtelem/frame/__init__.py"),
        ("element and identifier buffers", "vtelem/frame/channel.py"),
    ],
    observe=["bytes of finalized frames, with and without the length prefix"],
    technique="property-based testing against an independent reference codec",
    note="Random search with a byte-exact reference encoder/decoder written "
    "from docs/message.md; no proof of absence.",
)
prop(
    "C02",
    "Decoding returns exactly what a well-formed frame carries",
    "Decoding any frame that follows the protocol document yields its header "
    "fields and, in order, the identifiers, values and timestamps (data, "
    "event), fragment and message fields (message) or index and raw elements "
    "(stream) that it carries, with and without a checksum footer, and also "
    "when the receive buffer holds more bytes than the frame. Encoding channel "
    "values and decoding the frames gives the values back.",
    ["inputs", "configurations"],
    "all frame types, channel sets, values, identifiers and footers",
    "tests only decode frames the library itself has just built, with few "
    "types and values; stream frames and foreign encoders are never exercised",
    [
        "vtelem/parsing/encapsulation.py",
        "vtelem/parsing/frames.py",
        "vtelem/classes/byte_buffer.py",
        "vtelem/frame/fields.py",
    ],
    [("frame parsers by type", "vtelem/enums/frame.py")],
    observe=["the parsed frame returned by the environment's decoder"],
    technique="property-based testing: frames of a reference encoder decoded",
    note="Random search; the reference encoder shares no code with vtelem.",
)
prop(
    "C03",
    "Malformed, corrupted or foreign frames are rejected and contained",
    "Decoding arbitrary bytes never raises: the result is either nothing or a "
    "frame whose checksum, if it has one, matches the bytes before it; frames "
    "of another application id are never delivered when an id is expected. "
    "Bad input never keeps later well-formed frames from being delivered, "
    "neither in a decoder nor in a network client.",
    ["inputs", "fault_sequences"],
    "arbitrary bytes, truncations, bit flips and field mutations of valid "
    "frames, mixed with valid ones, directly and through network clients",
    "the input space is all byte strings; tests flip the checksum of one frame "
    "and use one wrong application id",
    [
        "vtelem/parsing/encapsulation.py",
        "vtelem/parsing/frames.py",
        "vtelem/client/__init__.py",
        "vtelem/client/socket.py",
        "vtelem/client/udp.py",
        "vtelem/client/tcp.py",
    ],
    [("checksum and id comparison", "vtelem/parsing/encapsulation.py")],
    observe=["decoder results", "frames a client delivers"],
    technique="structure-aware mutation fuzzing with a reference decoder as "
    "oracle",
    note="Single-bit and burst corruption is always caught when the frame "
    "structure survives; a mutation that makes a shorter frame valid without a "
    "footer is accepted as the protocol allows (footer optional).",
)
prop(
    "C04",
    "Stream deframing does not depend on how bytes are chunked",
    "However a stream of length-prefixed frames is split into reads, exactly "
    "the frames it holds come out, once and in order, with no byte lost or "
    "duplicated. A length above the limit is never delivered as a frame and "
    "the receiver synchronizes again on what is read afterwards.",
    ["inputs", "schedules"],
    "all frame sequences, all partitions of their bytes into reads, lengths "
    "around the limit",
    "tests feed one or two splits; the partitions are combinatorial",
    ["vtelem/frame/processor.py", "vtelem/classes/byte_buffer.py"],
    [("length prefix state", "vtelem/frame/processor.py")],
    observe=["byte sequences returned by the frame processor"],
    technique="metamorphic property-based testing over chunkings",
    note="Random search over frame sequences and partitions, plus every "
    "two-way split of small streams.",
)
prop(
    "C05",
    "A dispatch emits every due channel exactly once with its current value",
    "A dispatch at time t emits exactly those channels whose emission interval "
    "has elapsed since they last were emitted, each once, in registration "
    "order, with the value held at that moment, and no other channel. Rate "
    "changes apply from the next dispatch on and the environment's counters "
    "agree with what was emitted.",
    ["histories", "inputs"],
    "all histories of registering, setting, rate changes and dispatches over "
    "all channel types, rates and MTUs",
    "tests dispatch a few times with constant rates and only count frames",
    [
        "vtelem/channel/__init__.py",
        "vtelem/channel/framer.py",
        "vtelem/channel/environment.py",
    ],
    [("interval test of a channel", "vtelem/channel/__init__.py")],
    observe=["decoded data frames per dispatch", "metric channels"],
    technique="stateful model-based testing against a reference model",
    note="Random histories against a small model that decodes the frames with "
    "the reference codec.",
)
prop(
    "C06",
    "Every change of a tracked channel is reported exactly once, in order",
    "Each assignment that changes the value of a change-tracked channel is "
    "reported as one event in the next dispatch, in the order the changes "
    "happened, with the previous and new value and the times they were "
    "assigned. Assignments of the same value, rejected assignments and "
    "untracked channels never cause events, and no event is repeated.",
    ["histories", "inputs", "schedules"],
    "all histories of assignments, additions and commands (accepted and "
    "rejected) and dispatches, up to the capacity of the event queue",
    "tests look at few changes in one order, mostly only at counts",
    [
        "vtelem/classes/type_primitive.py",
        "vtelem/channel/__init__.py",
        "vtelem/classes/event_queue.py",
        "vtelem/channel/framer.py",
        "vtelem/channel/environment.py",
    ],
    [
        ("change callback", "vtelem/classes/type_primitive.py"),
        ("event queue", "vtelem/classes/event_queue.py"),
    ],
    observe=["decoded event frames", "metric events_captured"],
    technique="stateful model-based testing against a reference model",
    note="At most 256 changes between dispatches (the queue's capacity).",
)
prop(
    "C07",
    "A channel only ever holds values of its type that can be transmitted",
    "An assignment, addition or command is accepted exactly when the value is "
    "of the channel's type and in its range and (for commands) the channel is "
    "commandable; accepted values are read back and transmitted, rejected ones "
    "leave value, assignment time and events as they were. Whatever was "
    "accepted, the next dispatch succeeds.",
    ["inputs", "histories"],
    "all values of all types (also wrong types, limits, huge and non-finite "
    "floats) over all channel types, in all orders",
    "tests try one value over the limit per integer type",
    [
        "vtelem/classes/type_primitive.py",
        "vtelem/enums/primitive.py",
        "vtelem/channel/__init__.py",
        "vtelem/channel/environment.py",
    ],
    [("type and range validation", "vtelem/classes/type_primitive.py")],
    observe=["results of assignments", "values read back", "frames"],
    technique="stateful model-based testing against a reference model",
    note="Random values biased to type limits.",
)
prop(
    "C08",
    "Messages survive fragmentation, reordering, repetition and interleaving",
    "A message of any length split into frames of any MTU is reassembled to "
    "the identical bytes when all its fragments have arrived, in whatever "
    "order, with repetitions, interleaved with other messages of any type; "
    "consumers are told exactly once, with its type and number. It is never "
    "reported complete before the last fragment has arrived, and a message "
    "that cannot be represented is refused instead of being sent damaged.",
    ["inputs", "schedules", "fault_sequences"],
    "all messages, MTUs, types, arrival orders, repetitions and losses",
    "tests send fragments in order once",
    [
        "vtelem/message/framer.py",
        "vtelem/message/cache.py",
        "vtelem/frame/message.py",
        "vtelem/frame/fields.py",
    ],
    [
        ("fragmentation", "vtelem/message/framer.py"),
        ("fragment bookkeeping", "vtelem/message/cache.py"),
    ],
    observe=["message contents", "callbacks"],
    technique="property-based testing with generated arrival schedules",
    note="Random search over schedules with a set-based model of arrival.",
)
prop(
    "C09",
    "A message cache saved and reopened continues as if never closed",
    "Saving a message cache at any point between frames and opening it again "
    "from its directory preserves complete messages (contents and numbers) and "
    "partial ones, so that ingesting the remaining fragments completes them "
    "with the right bytes; complete messages are announced to consumers "
    "registered at opening. Clearing leaves an empty cache that keeps working.",
    ["histories", "crash_points"],
    "all interleavings of ingesting, saving, reopening and clearing, several "
    "messages of the same and different types",
    "tests reopen once with a single complete message",
    ["vtelem/message/cache.py", "vtelem/classes/data_cache.py"],
    [("fragments on disk", "vtelem/message/cache.py")],
    observe=["contents after reopening", "callbacks when opening"],
    technique="stateful model-based testing with close/reopen at every point",
    note="Crash points are between API calls; a torn file write is out of "
    "scope (no atomic-write claim is made by the project).",
)
prop(
    "C10",
    "Registries hand out unique stable ids, refuse duplicates, read purely",
    "Each registered name gets its own identifier, consecutive from zero, that "
    "never changes; a duplicate name is refused without effect. Looking "
    "anything up, known or unknown, has no effect on the registry, its "
    "description or any later operation, and the description is valid JSON "
    "listing exactly what is registered.",
    ["histories", "inputs"],
    "all sequences of registrations, duplicate registrations, lookups of known "
    "and unknown names and ids, over all kinds of registries",
    "tests register a few names and never look at state after failed lookups",
    [
        "vtelem/registry/__init__.py",
        "vtelem/registry/type.py",
        "vtelem/registry/service.py",
        "vtelem/channel/registry.py",
        "vtelem/channel/group_registry.py",
    ],
    [("id assignment", "vtelem/registry/__init__.py")],
    observe=["ids, lookups and JSON descriptions"],
    technique="stateful model-based testing against a dictionary model",
    note="Random histories.",
)
prop(
    "C11",
    "Enumerations map names to values one-to-one and survive serialization",
    "For any enumeration, the value of each of its names (in any letter case) "
    "and the name of each of its values agree, failed lookups leave it "
    "unchanged and its default is one of its names. Serializing an enumeration "
    "or a set of registered enumerations and loading it back gives an equal "
    "object with the same ids; registering continues without reusing ids.",
    ["inputs", "histories"],
    "all mappings of values to names, lookups, and registration/serialization "
    "histories",
    "tests use two fixed enums",
    [
        "vtelem/classes/user_enum.py",
        "vtelem/registry/enum_retry.py",
        "vtelem/registry/enum.py",
        "vtelem/classes/serdes.py",
    ],
    [("reverse mapping", "vtelem/classes/user_enum.py")],
    observe=["lookups", "JSON round trips"],
    technique="round-trip and model-based property testing",
    note="Random mappings and histories.",
)
prop(
    "C12",
    "Enum channels hold only values of their enumeration",
    "A channel of an enumeration reads as the name it was last set, commanded "
    "or initialized to; names that are not in the enumeration are refused "
    "without effect. Registering enumerations and enum channels either takes "
    "full effect or none, and known enumerations keep their ids.",
    ["histories", "inputs"],
    "all histories of registering enumerations and enum channels (valid, "
    "duplicate, unknown), setting and commanding them",
    "tests use one enum and one channel in one order",
    ["vtelem/telemetry/environment.py", "vtelem/registry/enum.py"],
    [("channel to enumeration mapping", "vtelem/telemetry/environment.py")],
    observe=["enum values read", "types, enums and channels registered"],
    technique="stateful model-based testing",
    note="Random histories against a model.",
)
prop(
    "C13",
    "Channel groups are read and written atomically",
    "Entering a group shows the current values of exactly its channels and "
    "leaving it writes the assigned values back; values written by one group "
    "update appear together, never partly, in any dispatch or concurrent group "
    "read, and groups don't affect each other's channels. A name that is taken "
    "is refused without effect.",
    ["histories", "schedules"],
    "all group layouts and histories; interleavings of group updates with "
    "dispatches and other group updates at every line",
    "tests use a group from one thread only",
    ["vtelem/channel/group.py", "vtelem/channel/group_registry.py"],
    [("environment lock around read and write", "vtelem/channel/group.py")],
    observe=["group data", "frames dispatched concurrently"],
    technique="model-based testing plus systematic preemption injection",
    note="One preemption per schedule, at every traced line of vtelem.",
)
prop(
    "C14",
    "Every command gets its answer and no command stops later ones",
    "Each enqueued command is executed once, in order, and its result callback "
    "is called exactly once with the outcome of the handler of its type; "
    "commands that are malformed, unknown or whose handler fails report "
    "failure and never keep later commands from being executed. The counters "
    "of accepted and rejected commands add up.",
    ["inputs", "histories", "fault_sequences"],
    "arbitrary JSON-like commands mixed with valid ones, handlers that fail",
    "tests send two malformed commands; any JSON document can arrive",
    [
        "vtelem/daemon/command_queue.py",
        "vtelem/types/command_queue_daemon.py",
        "vtelem/daemon/queue.py",
    ],
    [("command validation", "vtelem/daemon/command_queue.py")],
    observe=["result callbacks", "metrics"],
    technique="grammar-based fuzzing with an oracle per command",
    note="Random command streams; the daemon thread runs for real.",
)
prop(
    "C15",
    "Channel commands change exactly the addressed channel as requested",
    "A set or increment command addressed by name or id changes the channel to "
    "the requested value exactly when the channel exists, is commandable and "
    "accepts the value, and reports success truthfully; otherwise nothing "
    "changes. Enum channels accept the names of their enumeration.",
    ["inputs", "histories"],
    "all commands over all channel types, valid and invalid",
    "tests run a dozen fixed commands",
    ["vtelem/daemon/command_queue.py", "vtelem/channel/environment.py"],
    [("channel commander", "vtelem/daemon/command_queue.py")],
    observe=["command results", "channel values"],
    technique="stateful model-based testing against a reference model",
    note="Random command streams against a model of the channels.",
)
prop(
    "C16",
    "A stream writer delivers each frame once to every sink, isolating faults",
    "Every sink registered when a frame is written gets each frame exactly "
    "once, complete and in order with its length prefix; a sink that fails is "
    "removed and reported once and never affects what other sinks get. Sinks "
    "removed get no later frame, closers are called once, and counters agree.",
    ["histories", "fault_sequences", "schedules"],
    "all histories of adding and removing streams and queues, writing frames, "
    "and sinks failing at any write",
    "tests use healthy streams; failures at a chosen write are never tried",
    ["vtelem/stream/writer.py", "vtelem/daemon/queue.py"],
    [("per-stream error handling", "vtelem/stream/writer.py")],
    observe=["bytes per stream, frames per queue, metrics"],
    technique="stateful model-based testing with fault injection",
    note="Faults are injected at each write; the writer thread runs for real.",
)
prop(
    "C17",
    "Daemons follow their lifecycle and run the task only while running",
    "Start, stop, pause, unpause and restart succeed or fail as the lifecycle "
    "prescribes and the reported state always agrees with what happens: the "
    "task never runs while paused or idle, runs again after unpausing, and "
    "after stopping its thread has ended. Errors in the task are contained, "
    "and no sequence of operations hangs.",
    ["histories", "schedules"],
    "all operation sequences over all kinds of daemons, with tasks that take "
    "time or fail",
    "tests walk one path through the lifecycle",
    [
        "vtelem/daemon/__init__.py",
        "vtelem/daemon/synchronous.py",
        "vtelem/daemon/queue.py",
        "vtelem/enums/daemon.py",
    ],
    [("state changes under the daemon's lock", "vtelem/daemon/__init__.py")],
    observe=["states, results of operations, task executions"],
    technique="stateful model-based testing with real threads and fake time",
    note="Real threads; the oracle never depends on how long something takes.",
)
prop(
    "C18",
    "Daemon groups start and stop in dependency order, once each",
    "Performing an action on all managed daemons acts on each exactly once and "
    "never on a daemon before the daemons it depends on; it reports success "
    "exactly when all succeeded. Unknown names and duplicate registrations are "
    "refused without any effect, dependency cycles terminate, and any depth "
    "and breadth of dependencies is handled promptly.",
    ["inputs", "histories"],
    "all dependency graphs (chains, diamonds, cycles, unknown names)",
    "tests use three daemons",
    ["vtelem/daemon/manager.py", "vtelem/factories/daemon_manager.py"],
    [("dependency walk", "vtelem/daemon/manager.py")],
    observe=["order of actions", "results"],
    technique="property-based testing over random dependency graphs",
    note="Recording stand-ins for daemons; graphs up to some tens of nodes.",
)
prop(
    "C19",
    "State machines run exactly the transitions they are given",
    "Running a state machine with any input enters and leaves states exactly as "
    "their handlers direct, leave and enter handlers once per transition with "
    "the right neighbours, and the current state is always the last entered "
    "one. Entering or leaving that fails or unknown states are refused and "
    "leave the current state as it was.",
    ["inputs", "histories"],
    "all machines and histories of inputs, refusals included",
    "tests run one machine through one history",
    ["vtelem/classes/state_machine.py", "vtelem/classes/state.py"],
    [("transition", "vtelem/classes/state_machine.py")],
    observe=["calls of the handlers", "current state"],
    technique="stateful model-based testing",
    note="Random machines against an interpreter.",
)
prop(
    "C20",
    "Application time advances by scaled real time and all clients agree",
    "Application time is its start plus every elapsed interval of real time "
    "multiplied by the scale in force at that update, it never runs backwards "
    "while real time doesn't, and every managed entity is set to the same "
    "time, also those added later. Scales are never negative and sleeping "
    "takes the scaled amount; no scale breaks the keeper or its daemons.",
    ["histories", "inputs"],
    "all histories of time readings, scale changes, additions and updates",
    "tests compare two readings of the wall clock",
    ["vtelem/classes/time_keeper.py", "vtelem/classes/time_entity.py"],
    [("update of time", "vtelem/classes/time_keeper.py")],
    observe=["times of the keeper and of its entities"],
    technique="stateful model-based testing with a generated clock",
    note="The clock is an input; exact rational reference.",
)
prop(
    "C21",
    "Queue metrics always agree with what went through the queue",
    "For every metered queue the published element count equals the number of "
    "items waiting, and enqueued minus dequeued totals equal it too, after any "
    "sequence of blocking and non-blocking operations including refused ones "
    "and timeouts, from any number of threads. Items come out once, in order.",
    ["histories", "schedules"],
    "all sequences of queue operations, interleavings of producers and "
    "consumers",
    "tests put and get a few items",
    ["vtelem/classes/metered_queue.py", "vtelem/channel/environment.py"],
    [("metric updates", "vtelem/classes/metered_queue.py")],
    observe=["metric channels", "items"],
    technique="stateful model-based testing plus preemption injection",
    note="One preemption per schedule, at every traced line of vtelem.",
)
prop(
    "C22",
    "Reading a recording delivers its frames in order, whatever the access",
    "Iterating over a recorded file delivers exactly its decodable frames, "
    "each once and in order, for every limit on the number of frames, for files that "
    "grow between calls and for any read position, and undecodable frames in "
    "between neither stop nor duplicate anything.",
    ["inputs", "histories"],
    "all recordings, per-call limits, growth histories, corrupt frames",
    "tests read one file in two ways",
    ["vtelem/client/file.py", "vtelem/frame/processor.py"],
    [("resumption of reading", "vtelem/client/file.py")],
    observe=["frames delivered per call"],
    technique="stateful property-based testing against the reference stream",
    note="Random recordings, growth and limits.",
)
prop(
    "C23",
    "The HTTP interface answers every request correctly and completely",
    "A request gets the response of the handler registered for its path and "
    "method, or 404 or 501 when there is none, with the documented content "
    "type and a body of exactly the announced length; handler failures give an "
    "error response. Form and multipart bodies reach the handler as sent, and "
    "no request, however malformed, keeps the server from answering later ones.",
    ["inputs", "histories"],
    "all registered paths, methods, bodies, encodings, error texts, malformed "
    "requests",
    "tests send a handful of requests with ASCII texts",
    ["vtelem/classes/http_request_mapper.py", "vtelem/daemon/http.py"],
    [("request mapping", "vtelem/classes/http_request_mapper.py")],
    observe=["responses on a socket"],
    technique="property-based testing of a live server over loopback",
    note="Raw sockets on loopback; every response is parsed independently.",
)
prop(
    "C24",
    "What a telemetry server sends arrives unchanged at its clients",
    "Over TCP, UDP and WebSocket, every frame dispatched after a client is "
    "connected arrives once, in order and unchanged at that client while it "
    "stays connected, and decodes to the channel values and events "
    "dispatched. Clients that connect, leave or break never disturb what other "
    "clients get.",
    ["histories", "inputs", "configurations"],
    "values, MTUs, connect/leave histories of several clients per transport",
    "tests check that some frames arrive",
    [
        "vtelem/daemon/tcp_telemetry.py",
        "vtelem/daemon/websocket_telemetry.py",
        "vtelem/classes/udp_client_manager.py",
        "vtelem/client/socket.py",
        "vtelem/client/udp.py",
        "vtelem/client/tcp.py",
        "vtelem/client/websocket.py",
        "vtelem/stream/writer.py",
    ],
    [("per-client queues and streams", "vtelem/stream/writer.py")],
    observe=["frames received on real sockets"],
    technique="property-based end-to-end testing over loopback",
    note="Loopback sockets with few frames in flight, so UDP loses nothing.",
)
prop(
    "C25",
    "No operation, however it ends, blocks or loses another thread's work",
    "Operations on a shared environment from several threads behave as if each "
    "ran alone in some order: none is lost, none is seen half done, and names, "
    "ids, counters and frames stay consistent. An operation that is refused or "
    "fails leaves the environment usable from every thread.",
    ["schedules", "fault_sequences"],
    "pairs of operations interleaved at every line, refused and failing "
    "operations before operations of other threads",
    "tests are single-threaded around the environment, so a lock left held or "
    "taken too late is invisible",
    [
        "vtelem/classes/time_entity.py",
        "vtelem/channel/environment.py",
        "vtelem/telemetry/environment.py",
        "vtelem/registry/__init__.py",
        "vtelem/classes/event_queue.py",
    ],
    [("environment and registry locks", "vtelem/classes/time_entity.py")],
    observe=["results and state after both operations"],
    technique="systematic preemption injection with a serializability oracle",
    note="One preemption per schedule, at every traced line of vtelem.",
)
prop(
    "C26",
    "A server starts with exactly the services it is configured for",
    "For every combination of enabled and disabled services, a telemetry "
    "server starts, serves exactly the enabled ones on distinct ports that its "
    "service registry reports, and stops completely on request. Its HTTP "
    "interface describes the registries as valid JSON and executes commands, "
    "whatever was registered before.",
    ["configurations", "histories"],
    "all subsets of services, ports, registered channels, enums and groups",
    "tests boot the full configuration only",
    [
        "vtelem/telemetry/server.py",
        "vtelem/factories/telemetry_server.py",
        "vtelem/factories/telemetry_environment.py",
        "vtelem/registry/service.py",
    ],
    [("service set-up", "vtelem/telemetry/server.py")],
    observe=["listening sockets, HTTP responses, service registry"],
    technique="property-based testing with generated configurations of live "
    "servers, compared with an independent description",
    note="All service subsets are generated; each server really runs.",
)
prop(
    "C27",
    "Application ids are stable, in range and separate applications",
    "An application id derived from a basis is always in range and the same "
    "for the same basis, also for every kind of frame producer, and a receiver "
    "that expects an id accepts exactly the frames that carry it. Random ids "
    "and random integers always fit their type.",
    ["inputs", "configurations"],
    "all bases, id pairs, frame kinds",
    "tests use two ids",
    [
        "vtelem/frame/framer.py",
        "vtelem/parsing/encapsulation.py",
        "vtelem/client/__init__.py",
    ],
    [("id from basis", "vtelem/frame/framer.py")],
    observe=["ids in frames, decode results"],
    technique="property-based testing",
    note="Random search.",
)
prop(
    "C28",
    "Cached data is restored exactly as it was saved",
    "What is stored in a data cache and saved is what a cache opened on the "
    "same directory holds, for any JSON-like data and any history of changes, "
    "saves, reloads and clears; what was not saved is not invented. Opening a "
    "missing or empty directory gives an empty cache, and opening one with a "
    "file that can't be decoded fails instead of leaving it out.",
    ["histories", "inputs"],
    "all data and histories",
    "tests save one dictionary once",
    ["vtelem/classes/data_cache.py"],
    [("one file per key", "vtelem/classes/data_cache.py")],
    observe=["data after reopening"],
    technique="stateful model-based testing with reopening",
    note="Keys are plain file names, as every caller uses.",
)
prop(
    "C29",
    "Serializable objects round-trip through JSON and are validated",
    "Writing any serializable object (primitive, enumeration, enumeration "
    "set) as JSON text, stream, file or message and loading it gives an equal "
    "object, and an object loaded from data that violates its schema says that "
    "it's invalid. Objects "
    "never change by being serialized.",
    ["inputs"],
    "all objects, writers and readers, valid and invalid data",
    "tests load fixed files",
    [
        "vtelem/classes/serdes.py",
        "vtelem/serializables/primitive.py",
        "vtelem/schema/__init__.py",
        "vtelem/schema/manager.py",
        "vtelem/message/framer.py",
    ],
    [("schema validation", "vtelem/schema/manager.py")],
    observe=["loaded objects"],
    technique="round-trip property testing",
    note="Random search.",
)
prop(
    "C30",
    "A byte buffer behaves as a plain sequence of bytes with a position",
    "Any sequence of buffer writes, reads, consumptions, repositionings and "
    "appends gives the bytes, sizes and positions of the same operations on a "
    "plain byte sequence, in both byte orders, and reading back what was "
    "written gives the same values. Reading past the end is refused without "
    "effect, and immutable buffers are never changed.",
    ["histories", "inputs"],
    "all operation sequences and values",
    "tests do one write and read per type",
    ["vtelem/classes/byte_buffer.py", "vtelem/classes/type_primitive.py"],
    [("position and size", "vtelem/classes/byte_buffer.py")],
    observe=["bytes, size, position, values"],
    technique="stateful model-based testing",
    note="Operations as callers combine them: writes move forward, consumption "
    "from the front.",
)
prop(
    "C31",
    "UDP clients are served as managed and never disturb each other",
    "Every UDP client added gets all later frames until it is removed; adding, "
    "removing (also unknown ones), errors of one client and the removal of "
    "streams of other kinds never affect other clients, and the listed clients "
    "are exactly the active ones. Commands to manage clients succeed exactly "
    "when they are complete and valid.",
    ["histories", "fault_sequences"],
    "all histories of adding, removing and failing clients",
    "tests add and remove two clients",
    [
        "vtelem/classes/udp_client_manager.py",
        "vtelem/factories/udp_client_manager.py",
    ],
    [("client table", "vtelem/classes/udp_client_manager.py")],
    observe=["datagrams received, listed clients"],
    technique="stateful property-based (model-based) testing over loopback",
    note="Loopback sockets.",
)
prop(
    "C32",
    "Queue consumers handle every element once, in order, until stopped",
    "A queue daemon hands each element enqueued to its handler exactly once "
    "and in order, across pauses, restarts and injected wake-ups, and elements "
    "enqueued before stopping are not handled twice. Stopping always ends its "
    "thread.",
    ["histories", "schedules"],
    "all histories of enqueueing, pausing, stopping and restarting",
    "tests enqueue a few elements and stop once",
    ["vtelem/daemon/queue.py", "vtelem/daemon/__init__.py"],
    [("queue loop", "vtelem/daemon/queue.py")],
    observe=["handled elements"],
    technique="stateful property-based (model-based) testing with real threads",
    note="Real threads; no timing in the oracle.",
)

prop(
    "C33",
    "Periodic tasks keep their period and overruns are reported",
    "A running daemon with a periodic task begins an iteration one period after "
    "the beginning of the one before, measured in the time it lives by "
    "(application time, scaled, for clients of a time keeper; real time for the "
    "time keeper itself, whatever its scale), and right away if the task took a "
    "period or longer; exactly those iterations are counted and reported as "
    "overruns, with their times and period. A new period is used from the next "
    "iteration on, values that aren't positive are ignored; while paused the "
    "daemon only sleeps; a channel of a telemetry daemon is emitted at the "
    "first dispatch at which its own interval has elapsed.",
    ["histories", "schedules", "inputs"],
    "all task durations, periods, scales, channel rates and histories of "
    "pausing, restarting and changing them",
    "tests run a daemon for a moment with one rate and don't look at when "
    "iterations begin",
    [
        "vtelem/daemon/synchronous.py",
        "vtelem/classes/time_keeper.py",
        "vtelem/daemon/telemetry.py",
        "vtelem/channel/__init__.py",
    ],
    [
        ("iterations", "vtelem/daemon/synchronous.py Daemon.run"),
        ("ticks and scaled sleep", "vtelem/classes/time_keeper.py"),
    ],
    observe=["sleeps requested from the injected sleep function", "frames"],
    technique="model-based testing in simulated time (real threads, stepped)",
    note="Discrete-event simulation: real daemon threads sleep in virtual time.",
)

prop(
    "C34",
    "Discovered packet sizes and ports are the network's, and leave no trace",
    "Discovering the packet size of a path, by socket, host or new UDP client, "
    "gives what the network allows for every probe size, with at most one "
    "datagram (a valid 'invalid' frame of the size asked for, never fragmented) "
    "and leaves options and timeouts of the socket, and the process's open "
    "files, as they were. A server's frames, as datagrams, fit the network it "
    "was started in (Ethernet at most) and use that room. A port found to be "
    "free can be bound, an address that's taken is refused, a given port isn't "
    "changed.",
    ["inputs", "histories", "configurations"],
    "all packet sizes of the network (also changing), probe sizes, socket "
    "options, and constellations of bound sockets",
    "tests probe the machine's loopback interface with one or two sizes",
    ["vtelem/mtu.py", "vtelem/classes/udp_client_manager.py"],
    [
        ("discovery", "vtelem/mtu.py discover_mtu"),
        ("ports", "vtelem/mtu.py get_free_port"),
        ("a server's limit", "vtelem/telemetry/server.py"),
    ],
    observe=["results", "datagrams at a listener", "open files of the process"],
    technique="property-based testing in generated network environments",
    note="Network namespaces whose loopback packet size is generated.",
)


def main() -> None:
    """Write both files."""
    with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as out:
        for data, _, __ in PROPS:
            out.write(json.dumps(data) + "\n")

    checks = []
    missing = []
    for data, technique, note in PROPS:
        ident = data["id"]
        if not os.path.isfile(
            os.path.join(ROOT, "vt", "props", ident.lower() + ".py")
        ):
            missing.append(
                {"property": ident, "reason": "check not built yet"}
            )
            continue
        checks.append(
            {
                "property": ident,
                "quick_cmd": f"./check.py {ident}",
                "thorough_cmd": f"./check.py {ident} --tier thorough",
                "evidence_file": f"evidence/{ident}.json",
                "technique": technique,
                "level": "exploration",
                "level_note": note,
            }
        )
    manifest = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": missing,
        "notes": "Every check: generated cases (Hypothesis as generator and "
        "shrinker) run against the real vtelem of /repo and an explicit "
        "oracle; see DESIGN.md.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as out:
        json.dump(manifest, out, indent=1)
        out.write("\n")
    for data, _, __ in PROPS:
        assert len(data["title"]) <= 80, (data["id"], len(data["title"]))
        assert data["statement"].count(". ") <= 2, data["id"]


if __name__ == "__main__":
    main()
