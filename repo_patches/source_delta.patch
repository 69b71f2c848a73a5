From f7721b46950f514ad148614ff1c36270ad6f0565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:53 +0000
Subject: [PATCH 01/86] fix: reject malformed frames instead of raising from
 the decoder

---
 vtelem/parsing/encapsulation.py | 23 +++++++++++++++--------
 vtelem/parsing/frames.py        |  3 +++
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/vtelem/parsing/encapsulation.py b/vtelem/parsing/encapsulation.py
index 36d6c68..e44b147 100644
--- a/vtelem/parsing/encapsulation.py
+++ b/vtelem/parsing/encapsulation.py
@@ -57,16 +57,23 @@ def decode_frame(
     """Unpack a frame from an array of bytes."""
 
     buf = ByteBuffer(cast(bytearray, data), False, size)
-    app_id, header = parse_frame_header(buf, expected_id)
 
-    if header is None:
-        assert expected_id is not None
-        LOG.error("id mismatch: %d != %d", app_id, expected_id.get())
-        return None
+    # a frame that is truncated, or that contains something that can't be
+    # interpreted, isn't valid
+    try:
+        app_id, header = parse_frame_header(buf, expected_id)
 
-    result = PARSERS.get(header.type, PARSERS[FrameType.INVALID])(
-        header, buf, channel_registry
-    )
+        if header is None:
+            assert expected_id is not None
+            LOG.error("id mismatch: %d != %d", app_id, expected_id.get())
+            return None
+
+        result = PARSERS.get(header.type, PARSERS[FrameType.INVALID])(
+            header, buf, channel_registry
+        )
+    except (AssertionError, ValueError) as exc:
+        LOG.error("malformed frame (%d bytes): %s", size, exc)
+        return None
 
     footer = parse_frame_footer(buf)
     if footer.crc is not None:
diff --git a/vtelem/parsing/frames.py b/vtelem/parsing/frames.py
index a10acad..71e59fb 100644
--- a/vtelem/parsing/frames.py
+++ b/vtelem/parsing/frames.py
@@ -37,6 +37,7 @@ def parse_data_frame(
     for _ in range(header.size):
         chan = {"id": buf.read(DEFAULTS["id"])}
         chan["channel"] = registry.get_item(chan["id"])
+        assert chan["channel"] is not None
         assert not chan["channel"].is_stream
         obj["channels"].append(chan)
 
@@ -59,6 +60,7 @@ def parse_event_frame(
     for _ in range(header.size):
         event = {"id": buf.read(DEFAULTS["id"])}
         event["channel"] = registry.get_item(event["id"])
+        assert event["channel"] is not None
         assert not event["channel"].is_stream
         obj["events"].append(event)
 
@@ -93,6 +95,7 @@ def parse_stream_frame(
 
     obj = {"id": buf.read(DEFAULTS["id"])}
     obj["channel"] = registry.get_item(obj["id"])
+    assert obj["channel"] is not None
     assert obj["channel"].is_stream
     obj["index"] = buf.read(DEFAULTS["count"])
     obj["data"] = buf.read_bytes(header.size * obj["channel"].size())
-- 
2.43.0


From 00c97f7ec11240c7bd0777a6df8dc53fffe630b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:54 +0000
Subject: [PATCH 02/86] fix: keep partial lengths after an oversized frame was
 dropped

---
 vtelem/frame/processor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vtelem/frame/processor.py b/vtelem/frame/processor.py
index 8533cf7..397049c 100644
--- a/vtelem/frame/processor.py
+++ b/vtelem/frame/processor.py
@@ -37,6 +37,7 @@ class FrameProcessor:
         # clear buffer state if we get an unreasonable value
         if self.size > mtu:
             self.buffer.reset()
+            self.size = 0
             self.size_stale = True
 
     def process(
-- 
2.43.0


From b0d26bdb883c88a48ea849773638aec2179b5e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:09 +0000
Subject: [PATCH 03/86] fix: udp clients survive empty and truncated datagrams

---
 vtelem/client/socket.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vtelem/client/socket.py b/vtelem/client/socket.py
index c8cde27..b6c1616 100644
--- a/vtelem/client/socket.py
+++ b/vtelem/client/socket.py
@@ -6,7 +6,7 @@ vtelem - A daemon that provides decoded telemetry frames into a queue, from a
 # built-in
 import logging
 from queue import Queue
-from socket import SocketType, timeout
+from socket import SOCK_DGRAM, SocketType, timeout
 from typing import Callable
 
 # internal
@@ -14,6 +14,7 @@ from vtelem.channel.registry import ChannelRegistry
 from vtelem.classes.type_primitive import TypePrimitive, new_default
 from vtelem.client import TelemetryClient
 from vtelem.daemon import DaemonBase, DaemonState
+from vtelem.frame.processor import FrameProcessor
 from vtelem.mtu import DEFAULT_MTU
 from vtelem.telemetry.environment import TelemetryEnvironment
 
@@ -93,6 +94,14 @@ class SocketClient(DaemonBase, TelemetryClient):
                 raw_data = self.socket.recv(
                     self.mtu + frame_size.type.value.size
                 )
+
+                # datagrams don't depend on each other, and an empty one only
+                # ends the stream if we sent it to stop
+                if self.socket.type == SOCK_DGRAM:
+                    if not raw_data and self.state != DaemonState.STOPPING:
+                        continue
+                    self.processor = FrameProcessor()
+
                 if not raw_data:
                     LOG.info("%s: stream ended", self.name)
                     break
-- 
2.43.0


From 793d9b809fa841d0617f89b10e78336adb74f17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:09 +0000
Subject: [PATCH 04/86] fix: socket clients drop partial frames of an earlier
 connection

---
 vtelem/client/socket.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vtelem/client/socket.py b/vtelem/client/socket.py
index b6c1616..33aa19b 100644
--- a/vtelem/client/socket.py
+++ b/vtelem/client/socket.py
@@ -86,6 +86,9 @@ class SocketClient(DaemonBase, TelemetryClient):
             self.socket = self.function["init"](self.socket)
             self.update_name(self.socket)
 
+        # Bytes left over from an earlier connection don't belong to this one.
+        self.processor = FrameProcessor()
+
         frame_size = new_default("count")
         assert self.env is not None
 
-- 
2.43.0


From dd2eb78b132582348fa778737863b191fc0eb3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:22 +0000
Subject: [PATCH 05/86] fix: looking up unknown registry entries doesn't add
 them

---
 vtelem/registry/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/registry/__init__.py b/vtelem/registry/__init__.py
index 9ecff56..81c088d 100644
--- a/vtelem/registry/__init__.py
+++ b/vtelem/registry/__init__.py
@@ -49,7 +49,7 @@ class Registry(Generic[T]):
         """Obtain an item's data by its integer identifier."""
 
         with self.lock:
-            result = self.data[self.type_name][item_id]
+            result = self.data[self.type_name].get(item_id)
         return result
 
     def get_id(self, name: str) -> Optional[int]:
@@ -58,7 +58,7 @@ class Registry(Generic[T]):
         """
 
         with self.lock:
-            result = self.data["mappings"][name]
+            result = self.data["mappings"].get(name)
         return result
 
     def add(self, name: str, data: T) -> Tuple[bool, int]:
-- 
2.43.0


From c8155ed526107cffb9cf9fc882c192625a4ba7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:41 +0000
Subject: [PATCH 06/86] fix: daemons work with an environment that has no
 metrics

---
 vtelem/telemetry/environment.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 4f014c5..c25f6d8 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -134,8 +134,7 @@ class TelemetryEnvironment(ChannelEnvironment):
     ) -> None:
         """Set the value for an enumeration metric."""
 
-        assert self.metrics is not None
-        if name in self.metrics:
+        if self.metrics is not None and name in self.metrics:
             chan = self.registries["channel"].get_item(self.metrics[name])
             assert chan is not None
             enum_type = self.enum_channel_types[self.metrics[name]]
-- 
2.43.0


From 52505c76b307a582be33d8ecac3a30f2467eae0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:41 +0000
Subject: [PATCH 07/86] fix: environments keep their own list of initial
 channels

---
 vtelem/channel/environment.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/vtelem/channel/environment.py b/vtelem/channel/environment.py
index 9646f5d..cfb8e2e 100644
--- a/vtelem/channel/environment.py
+++ b/vtelem/channel/environment.py
@@ -45,12 +45,10 @@ class ChannelEnvironment(TimeEntity):
         self.registries: Dict[str, Registry] = {}
         self.channel_registry = ChannelRegistry(initial_channels)
         self.registries["channel"] = self.channel_registry
-        if initial_channels is None:
-            initial_channels = []
         self.framer = ChannelFramer(
             mtu,
             self.channel_registry,
-            initial_channels,
+            list(initial_channels or []),
             self.lock,
             app_id_basis,
             use_crc,
-- 
2.43.0


From d1cc8f93cd339379ed681419df4246ea744131fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:43 +0000
Subject: [PATCH 08/86] fix: float primitives refuse values that can't be
 encoded

---
 local/templates/primitive.py.j2 | 20 ++++++++++++++++++++
 vtelem/enums/primitive.py       | 29 +++++++++++++++++++++++++++--
 2 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/local/templates/primitive.py.j2 b/local/templates/primitive.py.j2
index aa7b140..fa66d5f 100644
--- a/local/templates/primitive.py.j2
+++ b/local/templates/primitive.py.j2
@@ -6,6 +6,7 @@ vtelem - A definition of the supported primitive types for this library.
 from enum import Enum
 from json import JSONEncoder
 import random
+import struct
 from typing import Any, Callable, NamedTuple, Tuple, Type, Union
 
 # internal
@@ -43,6 +44,16 @@ def integer_can_hold(prim: BasePrimitive, val: int) -> bool:
     return prim.min <= val <= prim.max
 
 
+def float_can_hold(prim: BasePrimitive, val: float) -> bool:
+    """Check if a floating-point primitive can represent this value."""
+
+    try:
+        struct.pack("!" + prim.fmt, val)
+    except OverflowError:
+        return False
+    return True
+
+
 class Primitive(Enum):
     """
     An enumeration containing the supported primitive types and their 'struct'
@@ -60,6 +71,15 @@ class Primitive(Enum):
         *integer_bounds({{item["bytes"]}}, {{item["signed"]}}),
         integer_can_hold,
     )
+  {% elif item["python"]["type"] == "float" %}
+    {{item["name"]|upper}} = BasePrimitive(
+        "{{item["python"]["serdes"]}}",
+        {{item["python"]["type"]}},
+        {{item["bytes"]}},
+        "{{item["name"]}}",
+        {{item["signed"]}},
+        validate=float_can_hold,
+    )
   {% else %}
     {{item["name"]|upper}} = BasePrimitive("{{item["python"]["serdes"]}}", {{item["python"]["type"]}}, {{item["bytes"]}}, "{{item["name"]}}", {{item["signed"]}})
   {% endif %}
diff --git a/vtelem/enums/primitive.py b/vtelem/enums/primitive.py
index b31bb9f..e7719e9 100644
--- a/vtelem/enums/primitive.py
+++ b/vtelem/enums/primitive.py
@@ -11,6 +11,7 @@ vtelem - A definition of the supported primitive types for this library.
 from enum import Enum
 from json import JSONEncoder
 import random
+import struct
 from typing import Any, Callable, NamedTuple, Tuple, Type, Union
 
 # internal
@@ -48,6 +49,16 @@ def integer_can_hold(prim: BasePrimitive, val: int) -> bool:
     return prim.min <= val <= prim.max
 
 
+def float_can_hold(prim: BasePrimitive, val: float) -> bool:
+    """Check if a floating-point primitive can represent this value."""
+
+    try:
+        struct.pack("!" + prim.fmt, val)
+    except OverflowError:
+        return False
+    return True
+
+
 class Primitive(Enum):
     """
     An enumeration containing the supported primitive types and their 'struct'
@@ -127,8 +138,22 @@ class Primitive(Enum):
         *integer_bounds(8, False),
         integer_can_hold,
     )
-    FLOAT = BasePrimitive("f", float, 4, "float", True)
-    DOUBLE = BasePrimitive("d", float, 8, "double", True)
+    FLOAT = BasePrimitive(
+        "f",
+        float,
+        4,
+        "float",
+        True,
+        validate=float_can_hold,
+    )
+    DOUBLE = BasePrimitive(
+        "d",
+        float,
+        8,
+        "double",
+        True,
+        validate=float_can_hold,
+    )
 
 
 def random_integer(prim: Primitive) -> int:
-- 
2.43.0


From fdd7795b3149f5cb802cf66232f7155d4d606409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:20 +0000
Subject: [PATCH 09/86] fix: adding something that isn't a number is refused

---
 vtelem/classes/type_primitive.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/type_primitive.py b/vtelem/classes/type_primitive.py
index adbab8e..dba9af3 100644
--- a/vtelem/classes/type_primitive.py
+++ b/vtelem/classes/type_primitive.py
@@ -55,7 +55,12 @@ class TypePrimitive:
     def add(self, data: PrimitiveValue, time: float = None) -> bool:
         """Safely add some amount to the primitive."""
 
-        return self.set(self.get() + data, time)
+        try:
+            result = self.get() + data
+        except (OverflowError, TypeError):
+            LOG.warning("can't add '%s' to type '%s'", data, self.type)
+            return False
+        return self.set(result, time)
 
     def set(self, data: PrimitiveValue, time: float = None) -> bool:
         """Set this primitive's data manually."""
-- 
2.43.0


From 7939ba40b6b49bc03d10a1fa5492e10d8aa971cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:54 +0000
Subject: [PATCH 10/86] fix: refusing a duplicate channel doesn't leave an
 event behind

---
 vtelem/channel/environment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vtelem/channel/environment.py b/vtelem/channel/environment.py
index cfb8e2e..7a1d48a 100644
--- a/vtelem/channel/environment.py
+++ b/vtelem/channel/environment.py
@@ -203,6 +203,7 @@ class ChannelEnvironment(TimeEntity):
         """
 
         with self.lock:
+            assert not self.has_channel(name)
             queue = None if not track_change else self.event_queue
             new_chan = Channel(name, instance, rate, queue, commandable)
             if initial is not None:
-- 
2.43.0


From 33237583a3678d9d76f5a60ffe73d0469c1b5b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:23 +0000
Subject: [PATCH 11/86] fix: message numbers wrap instead of silently becoming
 zero

---
 vtelem/message/framer.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/vtelem/message/framer.py b/vtelem/message/framer.py
index b0a4fbb..c831978 100644
--- a/vtelem/message/framer.py
+++ b/vtelem/message/framer.py
@@ -7,6 +7,7 @@ from json import JSONEncoder, dumps
 from typing import Dict, Sequence, Tuple, Type
 
 # internal
+from vtelem.classes import DEFAULTS
 from vtelem.classes.serdes import ObjectData, Serializable
 from vtelem.frame.framer import Framer
 from vtelem.frame.message import MessageFrame, frames_required
@@ -41,6 +42,13 @@ class MessageFramer(Framer):
         assert isinstance(frame, MessageFrame)
         return frame
 
+    def next_number(self, message_type: MessageType) -> None:
+        """Advance the number of a message type, within its field's range."""
+
+        numbers = DEFAULTS["id"].value.max + 1
+        current = self.message_numbers[message_type]
+        self.message_numbers[message_type] = (current + 1) % numbers
+
     def serialize_message(
         self,
         message: bytes,
@@ -62,14 +70,13 @@ class MessageFramer(Framer):
                 "total_fragments": total_frames,
             }
         )
-        self.message_numbers[message_type] += 1
+        self.next_number(message_type)
 
         frames = []
         frame_start = 0
         total_bytes = 0
         for idx in range(total_frames):
-            assert to_frame
-            base_params["fragment_index"].set(idx)
+            assert base_params["fragment_index"].set(idx)
             frame_size = min(to_frame, per_frame)
             frame.initialize(
                 base_params, message[frame_start : frame_start + frame_size]
-- 
2.43.0


From 7d3b88f26301ef09695a9eb2f4bf13f773cc2330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:23 +0000
Subject: [PATCH 12/86] fix: empty messages are sent, messages that can't be
 framed are refused

---
 vtelem/frame/message.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vtelem/frame/message.py b/vtelem/frame/message.py
index 75736e1..3584355 100644
--- a/vtelem/frame/message.py
+++ b/vtelem/frame/message.py
@@ -88,7 +88,7 @@ class MessageFrame(Frame):
         for field in MESSAGE_FIELDS:
             prim = TypePrimitive(field.type)
             if values is not None and field.name in values:
-                prim.set(values[field.name])
+                assert prim.set(values[field.name])
             result[field.name] = prim
         return result
 
@@ -102,4 +102,7 @@ def frames_required(
     """
 
     len_per_mtu = prototype.mtu - prototype.frame_overhead
-    return ceil(message_len / len_per_mtu), len_per_mtu
+    assert len_per_mtu > 0
+
+    # an empty message still needs a frame
+    return max(1, ceil(message_len / len_per_mtu)), len_per_mtu
-- 
2.43.0


From c1d0a1b02677f676d5acb00a42a8837b01753d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:23 +0000
Subject: [PATCH 13/86] fix: load the fragments of every message of a type

---
 vtelem/message/cache.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index a8197df..3ede1a1 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -105,11 +105,11 @@ class MessageCache(DataCache, MessageDispatcher):
                 if crc_int not in type_data:
                     type_data[crc_int] = {}
                 crc_data = type_data[crc_int]
-                curr = os.path.join(curr, crc)
+                path = os.path.join(curr, crc)
 
                 # load all fragments for this message's crc
-                for fragment in os.listdir(curr):
-                    with open(os.path.join(curr, fragment), "rb") as frag:
+                for fragment in os.listdir(path):
+                    with open(os.path.join(path, fragment), "rb") as frag:
                         crc_data[int(fragment)] = frag.read()
 
     def store_fragment(
-- 
2.43.0


From dee457bdb96af568b1a5943fc15844121797a3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:32 +0000
Subject: [PATCH 14/86] fix: repeated or mismatched fragments never complete a
 message

---
 vtelem/message/cache.py | 57 ++++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index 3ede1a1..9366271 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -5,12 +5,14 @@ vtelem - A module implementing a message storage.
 # built-in
 from contextlib import contextmanager
 import os
+import shutil
 from tempfile import TemporaryDirectory
 from typing import Callable, Dict, Iterator, List, Optional, Tuple
 
 # internal
+from vtelem.classes.byte_buffer import crc as calculate_crc
 from vtelem.classes.data_cache import DataCache
-from vtelem.frame.fields import to_parsed
+from vtelem.frame.fields import ParsedMessage, to_parsed
 from vtelem.types.frame import FrameType, MessageType, ParsedFrame
 
 MessageCallback = Callable[[MessageType, int, bytes], None]
@@ -197,23 +199,48 @@ class MessageCache(DataCache, MessageDispatcher):
             return
 
         # store this message fragment if we don't have it
-        if message.fragment_index not in crc_data:
+        fragments = self.fragment_data[message.type.value].get(message.crc, {})
+        if fragments.get(message.fragment_index) != message.data:
             self.store_fragment(
                 message.type, message.crc, message.fragment_index, message.data
             )
-            crc_data["fragments"] += 1
-
-            # mark this message as complete if we now have all of the fragments
-            if crc_data["fragments"] == message.total_fragments:
-                crc_data["complete"] = True
-                crc_data["number"] = message.number
-
-                # service message consumers
-                full_message = self.content(message.type, message.crc)
-                assert full_message is not None
-                self.service_callbacks(
-                    message.type, full_message[0], full_message[1]
-                )
+            fragments = self.fragment_data[message.type.value][message.crc]
+        crc_data["fragments"] = len(fragments)
+
+        # mark this message as complete if we now have all of the fragments
+        if all(idx in fragments for idx in range(message.total_fragments)):
+            crc_data["fragments"] = message.total_fragments
+            crc_data["complete"] = True
+            crc_data["number"] = message.number
+            full_message = self.content(message.type, message.crc)
+            assert full_message is not None
+
+            # start over if the fragments don't belong together
+            if calculate_crc(full_message[1]) != message.crc:
+                self.discard_fragments(message)
+                return
+
+            # service message consumers
+            self.service_callbacks(
+                message.type, full_message[0], full_message[1]
+            )
+
+    def discard_fragments(self, message: ParsedMessage) -> None:
+        """Keep only the provided fragment of a message."""
+
+        del self.fragment_data[message.type.value][message.crc]
+        shutil.rmtree(
+            os.path.join(
+                self.fragment_dir, str(message.type.value), str(message.crc)
+            )
+        )
+        self.data[str(message.type.value)][str(message.crc)] = {
+            "fragments": 1,
+            "complete": False,
+        }
+        self.store_fragment(
+            message.type, message.crc, message.fragment_index, message.data
+        )
 
 
 @contextmanager
-- 
2.43.0


From ba7590f4936825ae5978d2483821d41aad743a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:52 +0000
Subject: [PATCH 15/86] fix: temporary message caches leave no fragments behind

---
 vtelem/message/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index 9366271..bc43727 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -249,5 +249,5 @@ def from_temp_dir(
 ) -> Iterator[MessageCache]:
     """Create a message cache using a temporary directory."""
 
-    with TemporaryDirectory() as cache_dir:
-        yield MessageCache(cache_dir, initial_callbacks)
+    with TemporaryDirectory() as temp_dir:
+        yield MessageCache(os.path.join(temp_dir, "cache"), initial_callbacks)
-- 
2.43.0


From fbbda891dc9e67f7042543f899b2b6835ec71e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:17 +0000
Subject: [PATCH 16/86] fix: message caches can be used after cleaning them

---
 vtelem/message/cache.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/vtelem/message/cache.py b/vtelem/message/cache.py
index bc43727..a3832d2 100644
--- a/vtelem/message/cache.py
+++ b/vtelem/message/cache.py
@@ -68,17 +68,29 @@ class MessageCache(DataCache, MessageDispatcher):
         DataCache.__init__(self, cache_dir)
         MessageDispatcher.__init__(self, initial_callbacks)
 
-        self.fragment_data: dict = {}
         self.fragment_dir = cache_dir + "_fragments"
 
+        self.initialize_types()
+        self.load_fragments(self.fragment_dir)
+        self.service_all_callbacks()
+
+    def initialize_types(self) -> None:
+        """Ensure that data for every message type can be stored."""
+
+        self.fragment_data: dict = {}
         for mtype in MessageType:
             mtype_str = str(mtype.value)
             if mtype_str not in self.data:
                 self.data[mtype_str] = {}
             self.fragment_data[mtype.value] = {}
 
-        self.load_fragments(self.fragment_dir)
-        self.service_all_callbacks()
+    def clean(self) -> None:
+        """Clean all messages (and fragments) from the cache and disk."""
+
+        super().clean()
+        shutil.rmtree(self.fragment_dir)
+        os.makedirs(self.fragment_dir)
+        self.initialize_types()
 
     def service_all_callbacks(self) -> None:
         """Invoke registered callbacks for all complete messages."""
-- 
2.43.0


From 59b13bcfe836501fbb818d4a30e86a13524a14c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:56 +0000
Subject: [PATCH 17/86] fix: channel group registries can be described

---
 vtelem/channel/group_registry.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/vtelem/channel/group_registry.py b/vtelem/channel/group_registry.py
index f0208a8..ba0d2f4 100644
--- a/vtelem/channel/group_registry.py
+++ b/vtelem/channel/group_registry.py
@@ -4,6 +4,7 @@ vtelem - Allows channel groups to be managed by a single entity.
 
 # built-in
 from contextlib import contextmanager
+from json import JSONEncoder
 from typing import Any, Dict, Iterator
 
 # internal
@@ -13,6 +14,19 @@ from vtelem.registry import Registry
 from vtelem.telemetry.environment import TelemetryEnvironment
 
 
+class ChannelGroupEncoder(JSONEncoder):
+    """A JSON encoder for a channel group."""
+
+    def default(self, o) -> dict:
+        """Implement serialization for the channel group."""
+
+        assert isinstance(o, ChannelGroup)
+        return {
+            "name": o.name,
+            "channels": {name: chan["id"] for name, chan in o.channels.items()},
+        }
+
+
 class ChannelGroupRegistry(Registry[ChannelGroup]):
     """A class for managing an arbitrary number of channel groups."""
 
@@ -22,6 +36,11 @@ class ChannelGroupRegistry(Registry[ChannelGroup]):
         super().__init__("channel_groups")
         self.env = env
 
+    def describe(self, indented: bool = False) -> str:
+        """Obtain a JSON String of the group registry's current state."""
+
+        return self.describe_raw(indented, ChannelGroupEncoder)
+
     def create_group(self, name: str) -> int:
         """Add a new, named channel group."""
 
-- 
2.43.0


From fc9cfe8c6d56cd4a4c23e769e00d5c6f80f4d42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:29 +0000
Subject: [PATCH 18/86] fix: an enum's default has to be one of its names

---
 vtelem/classes/user_enum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vtelem/classes/user_enum.py b/vtelem/classes/user_enum.py
index 4b1ade8..092fae9 100644
--- a/vtelem/classes/user_enum.py
+++ b/vtelem/classes/user_enum.py
@@ -80,6 +80,7 @@ class UserEnum(Serializable):
         default = data["default"]
         val = default if default is not None else list(self.strings.keys())[0]
         assert val is not None
+        assert cast(str, val).lower() in self.strings
         data["default"] = val
 
     @property
-- 
2.43.0


From 5b0c6cedf557494a6202f09062a6f3bdc601c8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:30 +0000
Subject: [PATCH 19/86] fix: looking up unknown enum names doesn't add them

---
 vtelem/classes/user_enum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/user_enum.py b/vtelem/classes/user_enum.py
index 092fae9..5dd4809 100644
--- a/vtelem/classes/user_enum.py
+++ b/vtelem/classes/user_enum.py
@@ -104,7 +104,7 @@ class UserEnum(Serializable):
     def get_value(self, val: str) -> int:
         """Get the integer value of an enum String."""
 
-        result = self.strings[val.lower()]
+        result = self.strings.get(val.lower())
         assert result is not None
         return result
 
@@ -116,7 +116,7 @@ class UserEnum(Serializable):
         """
 
         result = new_default("enum", changed_cb)
-        val = self.strings[value.lower()]
+        val = self.strings.get(value.lower())
         assert val is not None
         assert result.set(val)
         return result
-- 
2.43.0


From 5940fa631add9241313166a50d9996bee5b410d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:02 +0000
Subject: [PATCH 20/86] fix: an enum registry refuses names it already has

---
 vtelem/registry/enum_retry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtelem/registry/enum_retry.py b/vtelem/registry/enum_retry.py
index 42e0f13..46a0273 100644
--- a/vtelem/registry/enum_retry.py
+++ b/vtelem/registry/enum_retry.py
@@ -58,8 +58,9 @@ class EnumRegistry(Serializable, LockEntity):
     def add(self, enum: UserEnum) -> int:
         """Add an enum to the registry."""
 
-        assert enum.name not in self.data
         with self.lock:
+            assert enum.name not in self.enums
+
             # Store a reference to the serializable data directly.
             self.enum_data[enum.name] = enum.data
 
-- 
2.43.0


From 328ca1756a0c1aaeaf9635ab8afb33e32a4088b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:30 +0000
Subject: [PATCH 21/86] fix: enum channels are added with a valid value or not
 at all

---
 vtelem/telemetry/environment.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index c25f6d8..1cd303c 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -100,18 +100,25 @@ class TelemetryEnvironment(ChannelEnvironment):
     ) -> int:
         """Add a channel that stores an enumeration value."""
 
-        new_chan = self.add_channel(
-            name, DEFAULTS["enum"], rate, track_change, None, commandable
-        )
-        enum_type = self.enum_registry.get_id(enum_name)
-        assert enum_type is not None
-        self.enum_channel_types[new_chan] = enum_type
-        if initial is not None:
-            chan = self.registries["channel"].get_item(new_chan)
-            assert chan is not None
+        with self.lock:
+            enum_type = self.enum_registry.get_id(enum_name)
+            assert enum_type is not None
             enum_def = self.enum_registry.get_item(enum_type)
             assert enum_def is not None
-            assert chan.set(enum_def.get_value(initial[0]), initial[1])
+
+            # a channel always holds one of the values of its enumeration
+            if initial is None:
+                initial = (enum_def.default, None)
+            value = enum_def.get_value(initial[0])
+            new_chan = self.add_channel(
+                name,
+                DEFAULTS["enum"],
+                rate,
+                track_change,
+                (value, initial[1]),
+                commandable,
+            )
+            self.enum_channel_types[new_chan] = enum_type
         return new_chan
 
     def add_enum_metric(
-- 
2.43.0


From e87e4ec3615f6d9d731fa71be6498a0d5186b389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:42 +0000
Subject: [PATCH 22/86] fix: enums that can't be registered as types are
 refused without effect

---
 vtelem/telemetry/environment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 1cd303c..4320132 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -51,7 +51,7 @@ class TelemetryEnvironment(ChannelEnvironment):
         enums = [self.framer.frame_types, MESSAGE_TYPES]
         for to_register in enums:
             assert self.enum_registry.add_enum(to_register)[0]
-        self.enum_registry.export(self.type_registry)
+        assert self.enum_registry.export(self.type_registry)
         self.enum_channel_types: Dict[int, int] = defaultdict(lambda: -1)
         if self.metrics is not None:
             self.add_metric(
@@ -195,6 +195,9 @@ class TelemetryEnvironment(ChannelEnvironment):
         with self.lock:
             if self.has_enum(enum):
                 return self.enum_registry.get_enum(enum)[1]
+
+            # the name must also be available as the name of a type
+            assert self.type_registry.get_id(enum.name) is None
             result = self.enum_registry.add_enum(enum)
             assert result[0]
             assert self.enum_registry.export(self.type_registry)
-- 
2.43.0


From c11270600fc02d234addca1f5d7df96bcfa53b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:20 +0000
Subject: [PATCH 23/86] fix: locks are released when an operation raises

---
 vtelem/classes/time_entity.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtelem/classes/time_entity.py b/vtelem/classes/time_entity.py
index 9975a95..bebe69e 100644
--- a/vtelem/classes/time_entity.py
+++ b/vtelem/classes/time_entity.py
@@ -37,10 +37,10 @@ class OptionalRLock(AbstractContextManager):
             self.lock.acquire()
         return self.item
 
-    def __exit__(self, exc_type, __, ___) -> Literal[False]:
-        """Release the lock if no exception was raised."""
+    def __exit__(self, _, __, ___) -> Literal[False]:
+        """Release the lock, also when an exception was raised."""
 
-        if exc_type is None and self.lock is not None:
+        if self.lock is not None:
             self.lock.release()
         return False
 
-- 
2.43.0


From 28cb4bc401e1599ed3fd37daaf4f4ca5d987888f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:20 +0000
Subject: [PATCH 24/86] fix: concurrent assignments of a channel don't get lost

---
 vtelem/channel/__init__.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/vtelem/channel/__init__.py b/vtelem/channel/__init__.py
index 24c5434..831445f 100644
--- a/vtelem/channel/__init__.py
+++ b/vtelem/channel/__init__.py
@@ -4,6 +4,7 @@ vtelem - A storage class that emits on an interval.
 
 # built-in
 from json import JSONEncoder
+from threading import RLock
 from typing import Any, Optional
 
 # internal
@@ -47,12 +48,25 @@ class Channel(TypePrimitive):
             changed_cb = new_changed_cb
 
         super().__init__(instance, changed_cb)
+        self.lock = RLock()
         self.name = name
         self.rate = rate
         self.commandable = commandable
         self.is_stream = is_stream
         self.last_emitted: float = float()
 
+    def add(self, data: Any, time: float = None) -> bool:
+        """Add some amount to the channel, atomically."""
+
+        with self.lock:
+            return super().add(data, time)
+
+    def set(self, data: Any, time: float = None) -> bool:
+        """Set the channel's value and report the change, atomically."""
+
+        with self.lock:
+            return super().set(data, time)
+
     def command(
         self, value: Any, time: float = None, add: bool = False
     ) -> bool:
-- 
2.43.0


From 8fe61d40016432dd84853ed15a5534224fe55097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:20 +0000
Subject: [PATCH 25/86] fix: registering and dispatching are atomic

---
 vtelem/channel/environment.py   | 32 +++++++++++++++++---------------
 vtelem/telemetry/environment.py | 11 ++++++-----
 2 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/vtelem/channel/environment.py b/vtelem/channel/environment.py
index 7a1d48a..24cfc74 100644
--- a/vtelem/channel/environment.py
+++ b/vtelem/channel/environment.py
@@ -109,11 +109,12 @@ class ChannelEnvironment(TimeEntity):
     ) -> None:
         """Add a new, named metric channel"""
 
-        if self.metrics is not None and not self.has_metric(name):
-            self.metrics[name] = self.add_channel(
-                name, instance, float(), track_change, initial, False
-            )
-            self.set_metric_rate(name, self.get_metric("metrics_rate"))
+        with self.lock:
+            if self.metrics is not None and not self.has_metric(name):
+                self.metrics[name] = self.add_channel(
+                    name, instance, float(), track_change, initial, False
+                )
+                self.set_metric_rate(name, self.get_metric("metrics_rate"))
 
     def get_metric(self, name: str) -> Any:
         """Get the value from a metrics channel."""
@@ -211,8 +212,7 @@ class ChannelEnvironment(TimeEntity):
             result = self.channel_registry.add_channel(new_chan)
             assert result[0]
             self.framer.add_channel(new_chan)
-
-        self.metric_add("channel_count", 1)
+            self.metric_add("channel_count", 1)
         return result[1]
 
     def dispatch(self, time: float, should_log: bool = True) -> int:
@@ -263,19 +263,21 @@ class ChannelEnvironment(TimeEntity):
     def dispatch_events(self, time: float) -> Tuple[int, int]:
         """Process all queued events (build frames)."""
 
-        result = self.framer.build_event_frames(
-            time, self.event_queue, self.frame_queue, self.write_crc
-        )
-        self.metric_add("events_captured", result[1], time)
+        with self.lock:
+            result = self.framer.build_event_frames(
+                time, self.event_queue, self.frame_queue, self.write_crc
+            )
+            self.metric_add("events_captured", result[1], time)
         return result
 
     def dispatch_data(self, time: float) -> Tuple[int, int]:
         """Process all channel emissions for the specified, absolute time."""
 
-        result = self.framer.build_data_frames(
-            time, self.frame_queue, self.write_crc
-        )
-        self.metric_add("emits_captured", result[1], time)
+        with self.lock:
+            result = self.framer.build_data_frames(
+                time, self.frame_queue, self.write_crc
+            )
+            self.metric_add("emits_captured", result[1], time)
         return result
 
     def dispatch_now(self, *_, should_log: bool = True, **__) -> int:
diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 4320132..51ef8b2 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -130,11 +130,12 @@ class TelemetryEnvironment(ChannelEnvironment):
     ) -> None:
         """Add a metric based on an enumeration definition."""
 
-        if self.metrics is not None and not self.has_metric(name):
-            self.metrics[name] = self.add_enum_channel(
-                name, enum_name, float(), track_change, initial, False
-            )
-            self.set_metric_rate(name, self.get_metric("metrics_rate"))
+        with self.lock:
+            if self.metrics is not None and not self.has_metric(name):
+                self.metrics[name] = self.add_enum_channel(
+                    name, enum_name, float(), track_change, initial, False
+                )
+                self.set_metric_rate(name, self.get_metric("metrics_rate"))
 
     def set_enum_metric(
         self, name: str, data: str, time: float = None
-- 
2.43.0


From 29c2724e9fa236e110eea7aa58581cf27e16e958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:20 +0000
Subject: [PATCH 26/86] fix: queue metrics only count what went through the
 queue

---
 vtelem/classes/metered_queue.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/vtelem/classes/metered_queue.py b/vtelem/classes/metered_queue.py
index 48a584a..bd1d0e2 100644
--- a/vtelem/classes/metered_queue.py
+++ b/vtelem/classes/metered_queue.py
@@ -41,24 +41,22 @@ class MeteredQueue(Queue):
             initial,
         )
 
-    def get(self, block: bool = True, timeout: float = None) -> Any:
-        """Dequeue an element."""
+    def _get(self) -> Any:
+        """Dequeue an element, the queue is locked and not empty."""
 
-        result = super().get(block, timeout)
+        result = super()._get()
         time = self.env.get_time()
         self.env.metric_add(f"{self.name}.elements", -1, time)
         self.env.metric_add(f"{self.name}.total_dequeued", 1, time)
         return result
 
-    def put(
-        self, item: Any, block: bool = True, timeout: float = None
-    ) -> None:
-        """Enqueue an element."""
+    def _put(self, item: Any) -> None:
+        """Enqueue an element, the queue is locked and has space."""
 
         time = self.env.get_time()
         self.env.metric_add(f"{self.name}.elements", 1, time)
         self.env.metric_add(f"{self.name}.total_enqueued", 1, time)
-        super().put(item, block, timeout)
+        super()._put(item)
 
 
 def create(
-- 
2.43.0


From c0ddc1b9143c0e607cca3b829e649b61001ed400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:20 +0000
Subject: [PATCH 27/86] fix: channels are added to a group while nobody reads
 it

---
 vtelem/channel/group.py | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/vtelem/channel/group.py b/vtelem/channel/group.py
index 8b0faa7..0f51114 100644
--- a/vtelem/channel/group.py
+++ b/vtelem/channel/group.py
@@ -40,17 +40,21 @@ class ChannelGroup:
         try:
             val = default_val(instance)
             real_name = f"{self.name}.{name}"
-            chan_id = self.env.add_channel(
-                real_name,
-                instance,
-                rate,
-                track_change,
-                (val, self.env.get_time()),
-            )
+            with self.env.lock:
+                chan_id = self.env.add_channel(
+                    real_name,
+                    instance,
+                    rate,
+                    track_change,
+                    (val, self.env.get_time()),
+                )
+                self.channels[name] = {
+                    "id": chan_id,
+                    "value": val,
+                    "is_enum": False,
+                }
         except AssertionError:
             return False
-
-        self.channels[name] = {"id": chan_id, "value": val, "is_enum": False}
         return True
 
     def add_enum_channel(
@@ -78,17 +82,17 @@ class ChannelGroup:
         # the environment should catch duplicate channel names for us
         try:
             real_name = f"{self.name}.{name}"
-            chan_id = self.env.add_enum_channel(
-                real_name,
-                enum_name,
-                rate,
-                track_change,
-                (val, self.env.get_time()),
-            )
+            with self.env.lock:
+                chan_id = self.env.add_enum_channel(
+                    real_name,
+                    enum_name,
+                    rate,
+                    track_change,
+                    (val, self.env.get_time()),
+                )
+                self.channels[name] = {"id": chan_id, "is_enum": True}
         except AssertionError:
             return False
-
-        self.channels[name] = {"id": chan_id, "is_enum": True}
         return True
 
     @contextmanager
-- 
2.43.0


From 27eaad03f16ef49e7808569bfffafd668a0da589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:37 +0000
Subject: [PATCH 28/86] fix: a group update with an unknown name or enum value
 writes nothing

---
 vtelem/channel/group.py         | 8 +++++++-
 vtelem/telemetry/environment.py | 9 +++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/vtelem/channel/group.py b/vtelem/channel/group.py
index 0f51114..7b14f39 100644
--- a/vtelem/channel/group.py
+++ b/vtelem/channel/group.py
@@ -102,8 +102,8 @@ class ChannelGroup:
         synced with the environment.
         """
 
+        data = self.read()
         try:
-            data = self.read()
             yield data
         finally:
             self.write(data)
@@ -124,8 +124,14 @@ class ChannelGroup:
         """Write the values into the environment."""
 
         with self.env.lock:
+            # don't write anything if there's something that can't be written
             for name, value in values.items():
                 assert name in self.channels
+                chan = self.channels[name]
+                if chan["is_enum"]:
+                    assert self.env.is_enum_value(chan["id"], value)
+
+            for name, value in values.items():
                 chan = self.channels[name]
                 if chan["is_enum"]:
                     self.env.set_enum_now(chan["id"], value)
diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 51ef8b2..44cf0af 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -167,6 +167,15 @@ class TelemetryEnvironment(ChannelEnvironment):
         assert enum_def is not None
         return enum_def.get_str(self.get_value(chan_id))
 
+    def is_enum_value(self, chan_id: int, data: str) -> bool:
+        """Determine if an enum channel can be set to a String value."""
+
+        enum_def = self.enum_registry.get_item(
+            self.enum_channel_types[chan_id]
+        )
+        assert enum_def is not None
+        return isinstance(data, str) and data.lower() in enum_def.strings
+
     def set_enum_now(self, channel_id: int, data: str) -> bool:
         """Set an enum channel with the provided value, assign time."""
 
-- 
2.43.0


From 9c16f6c0ab79952288fed69597c9b58b2174283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:13 +0000
Subject: [PATCH 29/86] fix: metrics are registered with their rate

---
 vtelem/channel/environment.py   | 8 +++++++-
 vtelem/telemetry/environment.py | 8 ++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/vtelem/channel/environment.py b/vtelem/channel/environment.py
index 24cfc74..6077e1b 100644
--- a/vtelem/channel/environment.py
+++ b/vtelem/channel/environment.py
@@ -111,8 +111,14 @@ class ChannelEnvironment(TimeEntity):
 
         with self.lock:
             if self.metrics is not None and not self.has_metric(name):
+                # the first metric is the rate of all metrics
+                rate = (
+                    self.get_metric("metrics_rate")
+                    if self.has_metric("metrics_rate")
+                    else float()
+                )
                 self.metrics[name] = self.add_channel(
-                    name, instance, float(), track_change, initial, False
+                    name, instance, rate, track_change, initial, False
                 )
                 self.set_metric_rate(name, self.get_metric("metrics_rate"))
 
diff --git a/vtelem/telemetry/environment.py b/vtelem/telemetry/environment.py
index 44cf0af..9843aa8 100644
--- a/vtelem/telemetry/environment.py
+++ b/vtelem/telemetry/environment.py
@@ -133,9 +133,13 @@ class TelemetryEnvironment(ChannelEnvironment):
         with self.lock:
             if self.metrics is not None and not self.has_metric(name):
                 self.metrics[name] = self.add_enum_channel(
-                    name, enum_name, float(), track_change, initial, False
+                    name,
+                    enum_name,
+                    self.get_metric("metrics_rate"),
+                    track_change,
+                    initial,
+                    False,
                 )
-                self.set_metric_rate(name, self.get_metric("metrics_rate"))
 
     def set_enum_metric(
         self, name: str, data: str, time: float = None
-- 
2.43.0


From b4f18504b41e4d1d011897c8ea1d84df1f23ec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:03 +0000
Subject: [PATCH 30/86] fix: failing command handlers don't stop the command
 queue

---
 vtelem/daemon/command_queue.py | 43 ++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/vtelem/daemon/command_queue.py b/vtelem/daemon/command_queue.py
index f6a3ba6..dd0dfb0 100644
--- a/vtelem/daemon/command_queue.py
+++ b/vtelem/daemon/command_queue.py
@@ -49,22 +49,25 @@ class CommandQueueDaemon(QueueDaemon):
 
             # make sure the element is a dictionary, has "command", has a
             # handler registered
-            if not isinstance(elem, dict) or "command" not in elem:
+            if (
+                not isinstance(elem, dict)
+                or "command" not in elem
+                or not isinstance(elem["command"], str)
+            ):
                 err = f"{self.name}: unknown or malformed command, rejected"
                 LOG.error(err)
                 self.increment_metric("rejected_count")
-                if cmd_cb is not None:
-                    cmd_cb(False, err)
+                self.report(cmd_cb, False, err)
                 return None
-            if not self.handlers[elem["command"]]:
+            handlers = self.handlers.get(elem["command"])
+            if not handlers:
                 err = (
                     f"{self.name}: command '{elem['command']}' "
                     "has no handlers, rejected"
                 )
                 LOG.error(err)
                 self.increment_metric("rejected_count")
-                if cmd_cb is not None:
-                    cmd_cb(False, err)
+                self.report(cmd_cb, False, err)
                 return None
 
             # provide data as a defaultdict no matter what
@@ -73,13 +76,16 @@ class CommandQueueDaemon(QueueDaemon):
                 cmd_data.update(elem["data"])
 
             # execute command
-            handlers = self.handlers[elem["command"]]
             for handler, result_cb, _ in handlers:
-                result, message = handler(cmd_data)
-                if result_cb is not None:
-                    result_cb(result, message)
-                if cmd_cb is not None:
-                    cmd_cb(result, message)
+                # a handler that fails must not stop later commands
+                try:
+                    result, message = handler(cmd_data)
+                except Exception as exc:  # pylint: disable=broad-except
+                    LOG.exception("%s: handler raised", self.name)
+                    result = False
+                    message = f"{type(exc).__name__}: {exc}"
+                self.report(result_cb, result, message)
+                self.report(cmd_cb, result, message)
                 status = "success" if result else "failure"
                 self.increment_metric(f"{status}_count")
 
@@ -89,7 +95,7 @@ class CommandQueueDaemon(QueueDaemon):
                     "%s: command '%s' '%s' %s, '%s'",
                     self.name,
                     elem["command"],
-                    json.dumps(cmd_data),
+                    dict(cmd_data),
                     status,
                     message,
                 )
@@ -133,6 +139,17 @@ class CommandQueueDaemon(QueueDaemon):
         help_msg = "inquire about available command usages"
         self.register_consumer("help", help_handler, help_msg=help_msg)
 
+    def report(
+        self, callback: Optional[ResultCbType], result: bool, message: str
+    ) -> None:
+        """Report a result, callbacks that fail must not stop commands."""
+
+        if callback is not None:
+            try:
+                callback(result, message)
+            except Exception:  # pylint: disable=broad-except
+                LOG.exception("%s: result callback raised", self.name)
+
     def register_consumer(
         self,
         command: str,
-- 
2.43.0


From 70592f774e042eba0e5f992833b7cbff3a974a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:40 +0000
Subject: [PATCH 31/86] fix: a failing stream never affects the stream writer

---
 vtelem/stream/writer.py | 63 +++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 24 deletions(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index e7bedaf..4a94a9c 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -78,41 +78,33 @@ class StreamWriter(QueueDaemon):
 
                 to_remove = []
                 for stream_id, stream in streams.items():
+                    # a stream that fails, however it does, must not have an
+                    # effect on other streams
                     try:
-                        assert stream.write(array) == size
+                        written = stream.write(array)
+                        if written != size:
+                            raise OSError(f"{written} bytes were written")
                         if self.stream_attrs[stream_id]["flush"]:
                             stream.flush()
-                        self.increment_metric("stream_writes")
-                        self.increment_metric("bytes_written", size)
-                    except OSError as exc:
-                        msg = (
-                            "stream '%s' (%d) error writing %d "
-                            + "bytes: %s (%d)"
-                        )
+                    except Exception as exc:  # pylint: disable=broad-except
                         LOG.error(
-                            msg,
-                            stream.name,
+                            "stream '%s' (%d) error writing %d bytes: %s",
+                            getattr(stream, "name", "unnamed"),
                             stream_id,
                             len(array),
-                            exc.strerror,
-                            exc.errno,
+                            exc,
                         )
                         to_remove.append((stream_id, stream))
+                        continue
+                    self.increment_metric("stream_writes")
+                    self.increment_metric("bytes_written", size)
 
                 # remove streams that errored when writing
                 for stream_id, stream in to_remove:
-                    LOG.warning(
-                        "removing stream '%s' (%d) errors writing",
-                        stream.name,
-                        stream_id,
+                    self.remove_failed(
+                        stream_id, getattr(stream, "name", "unnamed")
                     )
 
-                    # signal parent that their stream may be broken
-                    if self.error_handle is not None:
-                        self.error_handle(stream_id)
-
-                    assert self.remove_stream(stream_id)
-
             # add to queues
             for queue in queues:
                 queue.put(frame)
@@ -122,6 +114,7 @@ class StreamWriter(QueueDaemon):
 
         # register and reset additional metrics
         self.reset_metric("stream_writes")
+        self.reset_metric("bytes_written")
         self.reset_metric("stream_count")
         self.reset_metric("queue_writes")
         self.reset_metric("queue_count")
@@ -222,12 +215,34 @@ class StreamWriter(QueueDaemon):
                 del self.streams[stream_id]
                 closer = self.stream_closers[stream_id]
                 del self.stream_closers[stream_id]
-        if closer is not None and call_closer:
-            closer()
         if result:
             self.decrement_metric("stream_count")
+        if closer is not None and call_closer:
+            closer()
         return result
 
+    def remove_failed(self, stream_id: int, name: str) -> None:
+        """Remove a stream that errored when writing."""
+
+        # it may have failed because somebody just removed (and closed) it
+        with self.lock:
+            if stream_id not in self.streams:
+                return
+
+        LOG.warning("removing stream '%s' (%d) errors writing", name, stream_id)
+
+        # signal parent that their stream may be broken
+        if self.error_handle is not None:
+            try:
+                self.error_handle(stream_id)
+            except Exception:  # pylint: disable=broad-except
+                LOG.exception("error handler failed for stream %d", stream_id)
+
+        try:
+            self.remove_stream(stream_id)
+        except Exception:  # pylint: disable=broad-except
+            LOG.exception("closer failed for stream %d", stream_id)
+
     def remove_queue(self, queue_id: int, inject_none: bool = True) -> bool:
         """Remove a stream, if one is present with this identifier."""
 
-- 
2.43.0


From cb2fd9fb1ac63cb0d7a04f3c914740eeca9172f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:52 +0000
Subject: [PATCH 32/86] fix: daemon metrics are published in order

---
 vtelem/daemon/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index d96c747..7713b61 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -211,7 +211,7 @@ class DaemonBase(TimeEntity):
 
         with self.lock:
             self.function["metrics_data"][name] = val
-        self.set_env_metric(name, val)
+            self.set_env_metric(name, val)
 
     def increment_metric(self, name: str, value: Any = 1) -> None:
         """Increment a named metric."""
@@ -219,7 +219,7 @@ class DaemonBase(TimeEntity):
         with self.lock:
             val = self.function["metrics_data"][name] + value
             self.function["metrics_data"][name] = val
-        self.set_env_metric(name, val)
+            self.set_env_metric(name, val)
 
     def decrement_metric(self, name: str, value: Any = 1) -> None:
         """Decrement a named metric."""
@@ -227,7 +227,7 @@ class DaemonBase(TimeEntity):
         with self.lock:
             val = self.function["metrics_data"][name] - value
             self.function["metrics_data"][name] = val
-        self.set_env_metric(name, val)
+            self.set_env_metric(name, val)
 
     def get_state(self) -> DaemonState:
         """Query this daemon's current state."""
-- 
2.43.0


From 245e5f007b9be2d21b53d1def8f9371573d21b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:13 +0000
Subject: [PATCH 33/86] fix: operations that daemons don't have are refused

---
 vtelem/daemon/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index 7713b61..071c36f 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -119,7 +119,11 @@ class DaemonBase(TimeEntity):
 
         # set up the actions data
         default: dict = defaultdict(
-            lambda: {"action": lambda: False, "takes_args": False}
+            lambda: {
+                "action": lambda: False,
+                "takes_args": False,
+                "skip_if_state": [],
+            }
         )
         self.daemon_ops: Dict[DaemonOperation, dict] = default
         self.daemon_ops[DaemonOperation.START] = {
-- 
2.43.0


From e0409cd3cb13746c26b8af42ceca23ea38cd0f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:33 +0000
Subject: [PATCH 34/86] fix: stopping an event loop doesn't interrupt its
 set-up

---
 vtelem/daemon/event_loop.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/vtelem/daemon/event_loop.py b/vtelem/daemon/event_loop.py
index f30a568..468524c 100644
--- a/vtelem/daemon/event_loop.py
+++ b/vtelem/daemon/event_loop.py
@@ -5,6 +5,7 @@ vtelem - A module for using event loops as daemons.
 # built-in
 import asyncio
 from threading import Semaphore
+import time
 from typing import Any
 
 # internal
@@ -28,12 +29,21 @@ class EventLoopDaemon(DaemonBase):
         self.eloop = asyncio.new_event_loop()
         self.wait_count = 0
         self.wait_poster = Semaphore(0)
+        self.looping = False
 
         def event_loop_stopper() -> None:
             """
             A function for stopping the event loop from an arbitrary thread.
             """
 
+            # don't interfere with setting up, 'stop' only affects a loop that
+            # is running
+            thread = self.thread
+            while not self.looping:
+                if thread is None or not thread.is_alive():
+                    return
+                time.sleep(0.001)
+
             # determine how many tasks have expressed pending status
             with self.lock:
                 waits = self.wait_count
@@ -78,9 +88,15 @@ class EventLoopDaemon(DaemonBase):
     def run(self, *args, **kwargs) -> None:
         """Runs this daemon's thread, until stop is requested."""
 
+        def now_looping() -> None:
+            """Called by the event loop, once it's running."""
+            self.looping = True
+
         asyncio.set_event_loop(self.eloop)
         try:
-            self.function["run_init"](*args, **kwargs)
-        except KeyError:
-            pass
-        self.eloop.run_forever()
+            if "run_init" in self.function:
+                self.function["run_init"](*args, **kwargs)
+            self.eloop.call_soon(now_looping)
+            self.eloop.run_forever()
+        finally:
+            self.looping = False
-- 
2.43.0


From c40f0523a0742c2261ceca946479b634f0b0d033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:48 +0000
Subject: [PATCH 35/86] fix: stopping a daemon doesn't interfere with starting
 it again

---
 vtelem/daemon/__init__.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index 071c36f..ec55f1f 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -69,6 +69,7 @@ class DaemonBase(TimeEntity):
         self.function["track_metric_changes"] = False
         self.function["metrics_data"] = defaultdict(lambda: 0)
         self.thread: Optional[threading.Thread] = None
+        self.stopping: Optional[threading.Thread] = None
 
         # assign a 'sleep' function for general use
         self.function["sleep"] = time.sleep
@@ -349,6 +350,7 @@ class DaemonBase(TimeEntity):
         with self.lock:
             if self.state == DaemonState.RUNNING:
                 if self.set_state(DaemonState.STOPPING):
+                    self.stopping = self.thread
                     should_stop = True
 
         if should_stop:
@@ -373,12 +375,13 @@ class DaemonBase(TimeEntity):
             return False
 
         # if we should stop, wait for the thread to be joined
-        assert self.thread is not None
-        self.thread.join(timeout=timeout)
+        thread = self.stopping
+        assert thread is not None
+        thread.join(timeout=timeout)
         with self.lock:
-            self.thread = None
-            self.increment_metric(
-                "stops" if self.state == DaemonState.IDLE else "errors"
-            )
+            # somebody else may have started a new thread by now
+            if self.thread is thread:
+                self.thread = None
+            self.increment_metric("errors" if thread.is_alive() else "stops")
 
         return True
-- 
2.43.0


From 8dc5a7f8dc1c1ef59ae1a10bb26b4e52642bd891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:48 +0000
Subject: [PATCH 36/86] fix: a daemon's state metric follows the order of its
 states

---
 vtelem/daemon/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index ec55f1f..1409ae9 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -185,17 +185,17 @@ class DaemonBase(TimeEntity):
             transition = old_state != state
             self.state = state
 
-        if transition:
-            self.function["state_change"](old_state, state, self.get_time())
-
             # set the metric channel
-            if self.env is not None:
+            if transition and self.env is not None:
                 self.env.set_enum_metric(
                     self.get_metric_name("state"),
                     self.get_state_str(),
                     self.get_time(),
                 )
 
+        if transition:
+            self.function["state_change"](old_state, state, self.get_time())
+
         return transition
 
     def set_env_metric(
-- 
2.43.0


From b4029afdfc42d3761269fdab16b8b3b318f9258d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:16 +0000
Subject: [PATCH 37/86] fix: daemons are ordered by their dependencies,
 whatever they are

---
 vtelem/daemon/manager.py           | 71 +++++++++++-------------------
 vtelem/factories/daemon_manager.py |  5 ++-
 2 files changed, 29 insertions(+), 47 deletions(-)

diff --git a/vtelem/daemon/manager.py b/vtelem/daemon/manager.py
index 943942e..499a809 100644
--- a/vtelem/daemon/manager.py
+++ b/vtelem/daemon/manager.py
@@ -35,7 +35,7 @@ class DaemonManager(LockEntity):
         """Get a daemon object by name."""
 
         assert name not in NAME_DENYLIST
-        return self.daemons[name]
+        return self.daemons.get(name)
 
     def add_daemon(
         self, daemon: DaemonBase, depends_on: List[str] = None
@@ -54,59 +54,40 @@ class DaemonManager(LockEntity):
             self.depends_on[name] = depends_on
         return True
 
-    def perform_stack(
-        self,
-        name_stack: List[str],
-        executed: List[str],
-        results: Dict[str, bool],
-        operation: DaemonOperation,
-        *args,
-        **kwargs
-    ) -> None:
+    def ordered(self) -> List[str]:
         """
-        Execute an operation on daemons, respecting the dependency order.
+        Get the names of all daemons, such that a daemon comes after the
+        daemons it depends on (as far as dependencies aren't circular).
         """
 
-        if not name_stack:
-            return
-
-        curr = name_stack.pop()
-        if curr not in executed:
-
-            # determine if we can execute yet
-            to_execute: List[str] = []
-            curr_deps = self.depends_on[curr]
-            if curr_deps:
-                for dep in curr_deps:
-                    if dep not in executed:
-                        to_execute.append(dep)
-
-            # if we have dependencies, put them in front of us, otherwise
-            # run against the current entry
-            if to_execute:
-                name_stack = to_execute + [curr] + name_stack
-            else:
-                results[curr] = self.perform(curr, operation, *args, **kwargs)
-                executed.append(curr)
-
-        self.perform_stack(
-            name_stack, executed, results, operation, *args, **kwargs
-        )
+        result: List[str] = []
+        visited = set()
+        with self.lock:
+            for name in reversed(list(self.daemons)):
+                stack = [(name, False)]
+                while stack:
+                    curr, ready = stack.pop()
+                    if ready:
+                        result.append(curr)
+                        continue
+                    if curr not in visited:
+                        visited.add(curr)
+                        stack.append((curr, True))
+                        stack.extend(
+                            (dep, False)
+                            for dep in self.depends_on.get(curr) or []
+                        )
+        return result
 
     def perform_all(self, operation: DaemonOperation, *args, **kwargs) -> bool:
         """Attempt to perform an action on all daemons."""
 
         failures = 0
         with self.lock:
-            results: Dict[str, bool] = {}
-            self.perform_stack(
-                list(self.daemons.keys()),
-                [],
-                results,
-                operation,
-                *args,
-                **kwargs
-            )
+            results = {
+                name: self.perform(name, operation, *args, **kwargs)
+                for name in self.ordered()
+            }
             for result_key, result_val in results.items():
                 if not result_val:
                     LOG.error(
diff --git a/vtelem/factories/daemon_manager.py b/vtelem/factories/daemon_manager.py
index b358253..68a2eaa 100644
--- a/vtelem/factories/daemon_manager.py
+++ b/vtelem/factories/daemon_manager.py
@@ -32,10 +32,11 @@ def create_daemon_manager_commander(
             if "daemons" not in cmd or not isinstance(cmd["daemons"], list):
                 return False, f"'daemons' not provided as a list for '{oper}'"
 
-            # allow 'all' to be a special key
+            # allow 'all' to be a special key, daemons come after the ones
+            # they depend on
             daemons = cmd["daemons"]
             if "all" in daemons:
-                daemons = list(manager.states().keys())
+                daemons = manager.ordered()
 
             # execute all of the requested commands
             results = {}
-- 
2.43.0


From 55f3ab6d8fc545a5ec6c372541894cf4b833e85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:33 +0000
Subject: [PATCH 38/86] fix: state machines can be run by several threads

---
 vtelem/classes/state_machine.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/vtelem/classes/state_machine.py b/vtelem/classes/state_machine.py
index 0f5c912..dda8754 100644
--- a/vtelem/classes/state_machine.py
+++ b/vtelem/classes/state_machine.py
@@ -83,14 +83,13 @@ class StateMachine(LockEntity):
         states.
         """
 
-        if new_data is not None:
-            with self.lock:
+        with self.lock:
+            if new_data is not None:
                 self._data.update(new_data)
 
-        curr = self.states[self.current_state]
-        assert curr is not None
+            curr = self.states[self.current_state]
+            assert curr is not None
 
-        with self.lock:
             new = curr.run(self._data)
             assert new in self.states
 
@@ -123,14 +122,14 @@ class StateMachine(LockEntity):
                     )
                     exit_failed = True
 
-        # increment metrics
-        if self.metrics is not None:
-            with self.metrics.data() as metrics_data:
-                metrics_data["enter_fails"] += int(enter_failed)
-                metrics_data["exit_fails"] += int(exit_failed)
-                metrics_data["transitions"] += int(transitioned)
-                metrics_data["iterations"] += 1
-
-        actual_new = self.states[self.current_state]
-        assert actual_new is not None
-        return (curr, actual_new)
+            # increment metrics
+            if self.metrics is not None:
+                with self.metrics.data() as metrics_data:
+                    metrics_data["enter_fails"] += int(enter_failed)
+                    metrics_data["exit_fails"] += int(exit_failed)
+                    metrics_data["transitions"] += int(transitioned)
+                    metrics_data["iterations"] += 1
+
+            actual_new = self.states[self.current_state]
+            assert actual_new is not None
+            return (curr, actual_new)
-- 
2.43.0


From 3310407fbe01f05dff801076965b8362d421068b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:30 +0000
Subject: [PATCH 39/86] fix: sleeping works with every time scale

---
 vtelem/classes/time_keeper.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/time_keeper.py b/vtelem/classes/time_keeper.py
index d9b4c00..45e3474 100644
--- a/vtelem/classes/time_keeper.py
+++ b/vtelem/classes/time_keeper.py
@@ -9,6 +9,8 @@ from typing import Any, Callable, List
 # internal
 from vtelem.daemon.synchronous import Daemon
 
+MAX_SLEEP = float(2**32)
+
 
 class TimeKeeper(Daemon):
     """
@@ -76,4 +78,9 @@ class TimeKeeper(Daemon):
     def sleep(self, amount: float) -> None:
         """Sleep for the specified amount, scaled appropriately."""
 
-        self.sleep_function(amount / self.scalar)
+        # time stands still if the scale is zero, don't sleep forever (or
+        # longer than it's possible to)
+        scalar = self.scalar
+        if scalar > 0.0:
+            amount = min(amount / scalar, MAX_SLEEP)
+        self.sleep_function(amount)
-- 
2.43.0


From 03461c84cc3401ef55b1faa2d7d27c432338a3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:53 +0000
Subject: [PATCH 40/86] fix: a time scale is a finite number

---
 vtelem/classes/time_keeper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/classes/time_keeper.py b/vtelem/classes/time_keeper.py
index 45e3474..a33ed3b 100644
--- a/vtelem/classes/time_keeper.py
+++ b/vtelem/classes/time_keeper.py
@@ -71,7 +71,7 @@ class TimeKeeper(Daemon):
     def scale(self, scalar: float) -> None:
         """Change the current time scaling."""
 
-        if scalar >= 0.0:
+        if 0.0 <= scalar < float("inf"):
             with self.lock:
                 self.scalar = scalar
 
-- 
2.43.0


From c21bb4e30e98a31e75dbfe0fc2cf883eaf2ac80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:15 +0000
Subject: [PATCH 41/86] fix: file clients work without an environment

---
 vtelem/client/file.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/vtelem/client/file.py b/vtelem/client/file.py
index 681735c..8f34b94 100644
--- a/vtelem/client/file.py
+++ b/vtelem/client/file.py
@@ -95,7 +95,6 @@ class FileClient(DaemonBase, TelemetryClient):
             stream.seek(self.task.byte_index)
 
             frame_size = new_default("count")
-            assert self.env is not None
 
             while self.state != DaemonState.STOPPING:
                 try:
-- 
2.43.0


From 725518284282f269701e3b9f846a5cc28702d78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:52 +0000
Subject: [PATCH 42/86] fix: a file client's frame limit never loses frames

---
 vtelem/client/file.py | 51 ++++++++++++++++++-------------------------
 1 file changed, 21 insertions(+), 30 deletions(-)

diff --git a/vtelem/client/file.py b/vtelem/client/file.py
index 8f34b94..a0d6eb9 100644
--- a/vtelem/client/file.py
+++ b/vtelem/client/file.py
@@ -60,18 +60,12 @@ class FileClient(DaemonBase, TelemetryClient):
         (and export via queue) more frames than were requested.
         """
 
-        # Determine how many frames to process, we can either process them all
-        # or we want to truncate so we don't process more than was requested.
-        process_count = len(self.to_process)
-        if task.max_frames is not None:
-            process_count = min(
-                process_count, task.max_frames - self.frame_count
-            )
-
-        # Consume the desired number of payloads from our process list.
-        if process_count:
-            to_process = [self.to_process.pop(0) for _ in range(process_count)]
-            self.frame_count += self.handle_frames(to_process)
+        # Consume payloads until the desired number of frames was decoded, not
+        # every payload is a valid frame.
+        while self.to_process and (
+            task.max_frames is None or self.frame_count < task.max_frames
+        ):
+            self.frame_count += self.handle_frames([self.to_process.pop(0)])
 
         # Determine if we've reached the limit of desired frames, if one was
         # provided.
@@ -97,24 +91,21 @@ class FileClient(DaemonBase, TelemetryClient):
             frame_size = new_default("count")
 
             while self.state != DaemonState.STOPPING:
-                try:
-                    data = stream.read(self.mtu + frame_size.type.value.size)
-                    if not data:
-                        LOG.info("%s: reached end-of-file", self.name)
-                        self.frames.put(None)
-                        break
-
-                    # Accumulate new frames to process.
-                    self.to_process.extend(
-                        self.processor.process(data, frame_size, self.mtu)
-                    )
-
-                    # Stop processing frames (and reading) if we reached the
-                    # maximum desired.
-                    if not self.process_raw_frames(self.task):
-                        break
-                finally:
-                    pass
+                # Stop processing frames (and reading) if we reached the
+                # maximum desired.
+                if not self.process_raw_frames(self.task):
+                    break
+
+                data = stream.read(self.mtu + frame_size.type.value.size)
+                if not data:
+                    LOG.info("%s: reached end-of-file", self.name)
+                    self.frames.put(None)
+                    break
+
+                # Accumulate new frames to process.
+                self.to_process.extend(
+                    self.processor.process(data, frame_size, self.mtu)
+                )
 
             # Update the byte index.
             self.task = FileDecodeTask(
-- 
2.43.0


From cfbb9cdfb92c299763807f07b403c59eef072860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:03 +0000
Subject: [PATCH 43/86] fix: error responses end with their body

---
 vtelem/classes/http_request_mapper.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 3a3ad24..5294cb4 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -112,7 +112,6 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         self.send_error(
             HTTPStatus.NOT_IMPLEMENTED, "no request-mapper configured"
         )
-        self.end_headers()
         self.close_connection = True
 
     def _no_handle_response(self, command: str) -> None:
@@ -122,7 +121,6 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
 
         msg = f"no request-mapper for '{command}' path '{self.path}'"
         self.send_error(HTTPStatus.NOT_FOUND, msg)
-        self.end_headers()
         self.close_connection = True
 
     def _handle(self, _data: dict = None) -> None:
@@ -157,7 +155,6 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
 
         if not success:
             self.send_error(status, content)
-            self.end_headers()
             self.close_connection = True
             return None
 
-- 
2.43.0


From 1f4dcdcd61e5b5e13f1ce20c0c7db0fa03b012ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:15 +0000
Subject: [PATCH 44/86] fix: http handlers are found whatever the case of their
 path

---
 vtelem/classes/http_request_mapper.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 5294cb4..aa19925 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -60,9 +60,12 @@ class HttpRequestMapper:
     ) -> Tuple[Opt[RequestHandle], Opt[dict]]:
         """Retrieve a handle by request type and path."""
 
+        # handlers are registered in lower case, looking one up doesn't
+        # register anything
+        path = path.lower()
         return (
-            self.requests[request_type][path],
-            self.handle_data[request_type][path],
+            self.requests.get(request_type, {}).get(path),
+            self.handle_data.get(request_type, {}).get(path),
         )
 
     def add_handler(
-- 
2.43.0


From 296ca840ea6905309b0146617cb9f02210112a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:35 +0000
Subject: [PATCH 45/86] fix: any text works as the description of an http
 handler

---
 vtelem/classes/http_request_mapper.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index aa19925..5a990ca 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -92,6 +92,13 @@ class HttpRequestMapper:
         self.handle_data[request_type][path] = handle_data
 
 
+def header_value(value: str) -> str:
+    """Get a header's value: one line, of characters that can be sent."""
+
+    line = " ".join(value.splitlines())
+    return line.encode("latin-1", "replace").decode("latin-1")
+
+
 # pylint: disable=attribute-defined-outside-init
 class MapperAwareRequestHandler(BaseHTTPRequestHandler):
     """A request handler that integrates with the request mapper."""
@@ -164,7 +171,7 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         self.send_response(status)
         if handle_data is not None:
             for key, value in handle_data.items():
-                self.send_header(key, value)
+                self.send_header(key, header_value(value))
         self.send_header("Content-Length", str(len(content)))
         self.end_headers()
         if not headers_only:
-- 
2.43.0


From 108fbb5b57789e1a77849d974232926266eaff6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:35 +0000
Subject: [PATCH 46/86] fix: the length of http responses is in bytes

---
 vtelem/classes/http_request_mapper.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 5a990ca..25a4808 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -172,10 +172,11 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         if handle_data is not None:
             for key, value in handle_data.items():
                 self.send_header(key, header_value(value))
-        self.send_header("Content-Length", str(len(content)))
+        body = content.encode()
+        self.send_header("Content-Length", str(len(body)))
         self.end_headers()
         if not headers_only:
-            self.wfile.write(content.encode())
+            self.wfile.write(body)
         self.log_request(status)
         return None
 
-- 
2.43.0


From f8c8df07afa60f12d3b255283ed7063fdd4eb2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:35 +0000
Subject: [PATCH 47/86] fix: any text works as the reason of a failed http
 request

---
 vtelem/classes/http_request_mapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 25a4808..cb613ea 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -164,7 +164,7 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
         status = HTTPStatus.OK if success else HTTPStatus.BAD_REQUEST
 
         if not success:
-            self.send_error(status, content)
+            self.send_error(status, explain=content)
             self.close_connection = True
             return None
 
-- 
2.43.0


From 5b779b3cb0630839ec673ae8ae71e00bf2dbd60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:35 +0000
Subject: [PATCH 48/86] fix: http handlers that raise give an error response

---
 vtelem/classes/http_request_mapper.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index cb613ea..6856f33 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -160,7 +160,14 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
             return self._no_handle_response(command)
 
         # run handler
-        success, content = handle(self, data)
+        try:
+            success, content = handle(self, data)
+        except Exception:  # pylint: disable=broad-except
+            LOG.exception("'%s' handler for '%s' failed", command, self.path)
+            self.send_error(HTTPStatus.INTERNAL_SERVER_ERROR)
+            self.close_connection = True
+            return None
+
         status = HTTPStatus.OK if success else HTTPStatus.BAD_REQUEST
 
         if not success:
-- 
2.43.0


From 94c8874f580519ac16a656f4bd7df18ac64098e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:57 +0000
Subject: [PATCH 49/86] fix: any boundary works for multipart requests

---
 vtelem/classes/http_request_mapper.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 6856f33..a8b92c3 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -208,8 +208,8 @@ def parse_content_type(value: str) -> Opt[dict]:
         types = [x.strip() for x in params[0].split("/")]
         if len(types) == 2 and types[0] and types[1]:
             return {
-                "type": types[0],
-                "subtype": types[1],
+                "type": types[0].lower(),
+                "subtype": types[1].lower(),
                 "params": params[1:],
             }
 
@@ -223,14 +223,10 @@ def get_multipart_boundary(content_type: dict) -> Opt[str]:
     processing of 'multipart' MIME data.
     """
 
-    if (
-        "params" in content_type
-        and isinstance(content_type["params"], list)
-        and len(content_type["params"]) == 1
-    ):
-        boundary_raw = content_type["params"][0].split("=")
-        if len(boundary_raw) == 2 and boundary_raw[0] == "boundary":
-            return boundary_raw[1]
+    for param in content_type.get("params", []):
+        name, _, value = param.partition("=")
+        if name.strip().lower() == "boundary" and value:
+            return dequote(value.strip())
 
     return None
 
-- 
2.43.0


From 64ed4079040f807636be181043e2299a92d01197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:57 +0000
Subject: [PATCH 50/86] fix: any name works for a part of a multipart request

---
 vtelem/classes/http_request_mapper.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index a8b92c3..866922a 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -9,6 +9,7 @@ from http import HTTPStatus
 from http.server import BaseHTTPRequestHandler
 import json
 import logging
+import re
 from typing import Callable, Dict, List
 from typing import Optional as Opt
 from typing import Tuple
@@ -248,7 +249,7 @@ def parse_request_lines(lines: List[str]) -> dict:
 
     # parse headers (RFC 822 3.2)
     for header in headers:
-        name_body = header.split(":")
+        name_body = header.split(":", 1)
         if len(name_body) == 2:
             name = name_body[0].strip().lower()
             body = name_body[1].strip()
@@ -307,14 +308,14 @@ def parse_content_disposition(data: str) -> dict:
     """
 
     result = {}
-    items = [x.strip() for x in data.split(";")]
-    if items:
-        result["type"] = items[0]
-        for param in items[1:]:
-            param_split = param.split("=")
-            if len(param_split) == 2:
-                key = param_split[0].strip().lower()
-                result[key] = dequote(param_split[1].strip())
+    kind, _, params = data.partition(";")
+    result["type"] = kind.strip()
+
+    # quoted values can contain anything but quotes
+    for key, value in re.findall(
+        r"(?:^|;)([^;=]+)=(\s*\"[^\"]*\"|[^;]*)", params
+    ):
+        result[key.strip().lower()] = dequote(value.strip())
 
     return result
 
-- 
2.43.0


From 9e618bff20f43632a4d436879fd6eda916b144b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:47 +0000
Subject: [PATCH 51/86] fix: http requests with invalid content get a response

---
 vtelem/classes/http_request_mapper.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/http_request_mapper.py b/vtelem/classes/http_request_mapper.py
index 866922a..c8b1ea0 100644
--- a/vtelem/classes/http_request_mapper.py
+++ b/vtelem/classes/http_request_mapper.py
@@ -198,7 +198,15 @@ class MapperAwareRequestHandler(BaseHTTPRequestHandler):
 
     def do_POST(self) -> None:  # pylint: disable=invalid-name
         """Respond to a POST request."""
-        return self._handle(get_post_request_data(self))
+
+        try:
+            data = get_post_request_data(self)
+        except ValueError as exc:
+            LOG.error("can't parse POST request data: %s", exc)
+            self.send_error(HTTPStatus.BAD_REQUEST)
+            self.close_connection = True
+            return None
+        return self._handle(data)
 
 
 def parse_content_type(value: str) -> Opt[dict]:
@@ -360,6 +368,8 @@ def get_post_request_data(request: BaseHTTPRequestHandler) -> dict:
     if all(key in request.headers for key in keys):
         content_type = parse_content_type(request.headers["Content-Type"])
         length = int(request.headers["Content-Length"])
+        if length < 0:
+            raise ValueError(f"negative content length ({length})")
         if content_type is not None and content_type["type"] in parsers:
             subparsers = parsers[content_type["type"]]
             if content_type["subtype"] in subparsers:
-- 
2.43.0


From f5614a05937e26220f1e0854eeea27237bdd5d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:31 +0000
Subject: [PATCH 52/86] fix: idle connections don't block encrypted http
 servers

---
 vtelem/daemon/http.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vtelem/daemon/http.py b/vtelem/daemon/http.py
index e1d16f6..1b63762 100644
--- a/vtelem/daemon/http.py
+++ b/vtelem/daemon/http.py
@@ -130,8 +130,12 @@ class HttpDaemon(DaemonBase):
                         self.name, [self.server.server_address]
                     )
             if self.ssl_context is not None:
+                # handshakes are made when a connection is handled, so that
+                # they don't keep us from accepting others
                 with self.ssl_context.wrap_socket(
-                    self.server.socket, server_side=True
+                    self.server.socket,
+                    server_side=True,
+                    do_handshake_on_connect=False,
                 ) as ssock:
                     self.server.socket = ssock
                     self.server.serve_forever(0.1)
-- 
2.43.0


From a6db54fda43a116fd0256e436dd6b2413c2e27dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:21 +0000
Subject: [PATCH 53/86] fix: encrypted http servers can be started again

---
 vtelem/daemon/http.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/vtelem/daemon/http.py b/vtelem/daemon/http.py
index 1b63762..f5819bf 100644
--- a/vtelem/daemon/http.py
+++ b/vtelem/daemon/http.py
@@ -129,15 +129,14 @@ class HttpDaemon(DaemonBase):
                     service_registry.add(
                         self.name, [self.server.server_address]
                     )
-            if self.ssl_context is not None:
+            # encrypt the socket once, it's also used when started again
+            if self.ssl_context is not None and not self.uses_tls:
                 # handshakes are made when a connection is handled, so that
                 # they don't keep us from accepting others
-                with self.ssl_context.wrap_socket(
+                self.server.socket = self.ssl_context.wrap_socket(
                     self.server.socket,
                     server_side=True,
                     do_handshake_on_connect=False,
-                ) as ssock:
-                    self.server.socket = ssock
-                    self.server.serve_forever(0.1)
-            else:
-                self.server.serve_forever(0.1)
+                )
+                self.uses_tls = True
+            self.server.serve_forever(0.1)
-- 
2.43.0


From 70e06fc1815ae007aedadfbb1753645e2451a39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:13 +0000
Subject: [PATCH 54/86] fix: stop event loops that are idle without waiting for
 the grace period

---
 vtelem/daemon/event_loop.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vtelem/daemon/event_loop.py b/vtelem/daemon/event_loop.py
index 468524c..b69112f 100644
--- a/vtelem/daemon/event_loop.py
+++ b/vtelem/daemon/event_loop.py
@@ -48,10 +48,11 @@ class EventLoopDaemon(DaemonBase):
             with self.lock:
                 waits = self.wait_count
 
-            # signal active tasks to cancel
+            # signal active tasks to cancel, the event loop itself has to do
+            # this or it won't notice while it's idle
             tasks = asyncio.all_tasks(loop=self.eloop)
             for task in tasks:
-                task.cancel()
+                self.eloop.call_soon_threadsafe(task.cancel)
 
             # allow 'stop_grace' amount of time to pass while we wait for tasks
             # to complete, after this we'll stop the event loop and wait for
@@ -64,6 +65,7 @@ class EventLoopDaemon(DaemonBase):
                 for task in tasks:
                     if not task.done():
                         running = True
+                        time.sleep(0.001)
                         break
 
             # schedule event-loop shutdown, if we leave un-finished work behind
-- 
2.43.0


From 5a1eb1dc1a779dbb7494b06d42a2b2039872be76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:13 +0000
Subject: [PATCH 55/86] fix: a websocket client waiting for telemetry doesn't
 block the others

---
 vtelem/daemon/websocket_telemetry.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/vtelem/daemon/websocket_telemetry.py b/vtelem/daemon/websocket_telemetry.py
index d2f068e..60e88aa 100644
--- a/vtelem/daemon/websocket_telemetry.py
+++ b/vtelem/daemon/websocket_telemetry.py
@@ -3,6 +3,7 @@ vtelem - An interface for managing websocket servers that serve telemetry data.
 """
 
 # built-in
+import asyncio
 from queue import Queue
 from typing import Any, Optional, Tuple
 
@@ -18,6 +19,8 @@ from vtelem.stream import queue_get
 from vtelem.stream.writer import QueueClientManager, StreamWriter
 from vtelem.telemetry.environment import TelemetryEnvironment
 
+POLL_PERIOD = 0.01
+
 
 class WebsocketTelemetryDaemon(QueueClientManager, WebsocketDaemon):
     """A class for creating telemetry-serving websocket servers."""
@@ -40,21 +43,22 @@ class WebsocketTelemetryDaemon(QueueClientManager, WebsocketDaemon):
             """
 
             queue_id, frame_queue = self.add_client_queue(
-                Host(*websocket.remote_address)
+                Host(*websocket.remote_address[:2])
             )
-            should_continue = True
 
             try:
-                while should_continue:
-                    try:
-                        frame: Optional[ChannelFrame] = queue_get(frame_queue)
-                        if frame is None:
-                            should_continue = False
-                            break
+                while websocket.open:
+                    # waiting for a frame must not block other connections
+                    if frame_queue.empty():
+                        await asyncio.sleep(POLL_PERIOD)
+                        continue
 
-                        await websocket.send(frame.with_size_header()[0])
-                    except WebSocketException:
-                        should_continue = False
+                    frame: Optional[ChannelFrame] = queue_get(frame_queue)
+                    if frame is None:
+                        break
+                    await websocket.send(frame.with_size_header()[0])
+            except WebSocketException:
+                pass
             finally:
                 self.writer.remove_queue(queue_id, False)
 
-- 
2.43.0


From 311eced132517f3886b7e703f49c76b3a03ec1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:16 +0000
Subject: [PATCH 56/86] fix: udp clients are closed whatever error they had,
 other streams aren't affected

---
 vtelem/classes/udp_client_manager.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/udp_client_manager.py b/vtelem/classes/udp_client_manager.py
index 7277311..cdb04e4 100644
--- a/vtelem/classes/udp_client_manager.py
+++ b/vtelem/classes/udp_client_manager.py
@@ -40,13 +40,16 @@ class UdpClientManager(LockEntity):
             """
 
             with self.lock:
+                # not every stream is one of our clients
+                if stream_id not in self.clients:
+                    return
                 sock, sock_file = self.clients[stream_id]
                 del self.clients[stream_id]
             name = sock.getsockname()
             LOG.info("closing stream client '%s:%d'", name[0], name[1])
             try:
                 sock_file.close()
-            except ConnectionRefusedError:  # pragma: no cover
+            except OSError:  # pragma: no cover
                 pass
             finally:
                 sock.close()
@@ -99,5 +102,5 @@ class UdpClientManager(LockEntity):
         """Remove a client connection by integer identifier, closes it."""
 
         with self.lock:
-            if self.writer.remove_stream(sock_id):
+            if sock_id in self.clients and self.writer.remove_stream(sock_id):
                 self.closer(sock_id)
-- 
2.43.0


From 80cbff876d7fcc4d99d308a27f2d4272d5ee75f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:16 +0000
Subject: [PATCH 57/86] fix: every frame is sent to udp clients in its own
 datagram

---
 vtelem/classes/udp_client_manager.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/udp_client_manager.py b/vtelem/classes/udp_client_manager.py
index cdb04e4..4dc5304 100644
--- a/vtelem/classes/udp_client_manager.py
+++ b/vtelem/classes/udp_client_manager.py
@@ -68,8 +68,11 @@ class UdpClientManager(LockEntity):
 
         return {host: self.add_client(host) for host in hosts}
 
-    def add_client(self, host: Host, flush: bool = False) -> Tuple[int, int]:
-        """Add a new client connection by hostname and port."""
+    def add_client(self, host: Host, flush: bool = True) -> Tuple[int, int]:
+        """
+        Add a new client connection by hostname and port, every frame is sent
+        in its own datagram unless 'flush' is disabled.
+        """
 
         sock = create_udp_socket(host)
         mtu = discover_mtu(sock)
-- 
2.43.0


From d33a086d99a886fc0ea7533ee26631181cd79887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:16 +0000
Subject: [PATCH 58/86] fix: adding udp clients by command needs a host and a
 port

---
 vtelem/factories/udp_client_manager.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/vtelem/factories/udp_client_manager.py b/vtelem/factories/udp_client_manager.py
index 991a423..7b40f6b 100644
--- a/vtelem/factories/udp_client_manager.py
+++ b/vtelem/factories/udp_client_manager.py
@@ -16,11 +16,13 @@ from vtelem.types.command_queue_daemon import ResultCbType
 def add_client(manager: UdpClientManager, data: dict) -> Tuple[bool, str]:
     """Attempt to add a new client."""
 
-    if "host" not in data and "port" not in data:
+    if "host" not in data or "port" not in data:
         return False, "must provide 'host' and 'port'"
 
-    result = manager.add_client(Host(data["host"], data["port"]))
-    client_name = manager.client_name(result[0])
+    # a client that fails right away must not be removed before it was named
+    with manager.lock:
+        result = manager.add_client(Host(data["host"], data["port"]))
+        client_name = manager.client_name(result[0])
     client_str = f"{client_name[0]}:{client_name[1]}"
     msg = f"client '{result[0]}' ({client_str}) added with mtu '{result[1]}'"
     return True, msg
-- 
2.43.0


From 90a7fcb5f5e7e5ccb5d6679cb62adeee3af43ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:02 +0000
Subject: [PATCH 59/86] fix: tcp clients connecting while the server stops are
 closed, ended connections are forgotten

---
 vtelem/daemon/tcp_telemetry.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/vtelem/daemon/tcp_telemetry.py b/vtelem/daemon/tcp_telemetry.py
index 16546ad..12aff43 100644
--- a/vtelem/daemon/tcp_telemetry.py
+++ b/vtelem/daemon/tcp_telemetry.py
@@ -12,7 +12,7 @@ from typing import Any, Dict, Tuple
 
 # internal
 from vtelem.client.tcp import TcpClient
-from vtelem.daemon import DaemonBase
+from vtelem.daemon import DaemonBase, DaemonState
 from vtelem.mtu import DEFAULT_MTU, Host
 from vtelem.stream.writer import QueueClientManager, StreamWriter
 from vtelem.telemetry.environment import TelemetryEnvironment
@@ -34,7 +34,6 @@ class TcpTelemetryHandler(socketserver.StreamRequestHandler):
         )
 
         daemon: TcpTelemetryDaemon = self.server.daemon  # type: ignore
-        daemon.increment_metric("clients")
 
         # make sure our stream has a name attribute
         stream: BytesIO = self.wfile  # type: ignore
@@ -43,14 +42,20 @@ class TcpTelemetryHandler(socketserver.StreamRequestHandler):
         # add the socket to the stream writer
         writer: StreamWriter = daemon.writer
         with daemon.lock:
+            # nothing would close this connection if we're already stopping
+            if daemon.get_state() in (DaemonState.STOPPING, DaemonState.IDLE):
+                return
             stream_id, sem = writer.add_semaphore_stream(stream)
             daemon.client_sems[stream_id] = sem
+        daemon.increment_metric("clients")
 
         # wait for something to signal us to close the connection
         try:
             sem.acquire()  # pylint:disable=consider-using-with
         finally:
             writer.remove_stream(stream_id, False)
+            with daemon.lock:
+                daemon.client_sems.pop(stream_id, None)
             LOG.info(
                 "%s:%d disconnected",
                 self.client_address[0],
@@ -89,10 +94,10 @@ class TcpTelemetryDaemon(QueueClientManager, DaemonBase):
 
             self.server.shutdown()
             with self.lock:
-                closed_clients = list(self.client_sems.keys())
-            for client in closed_clients:
-                self.client_sems[client].release()
-                del self.client_sems[client]
+                closed_clients = list(self.client_sems.values())
+                self.client_sems.clear()
+            for sem in closed_clients:
+                sem.release()
 
         self.function["inject_stop"] = stopper
         self.server.daemon = self  # type: ignore
-- 
2.43.0


From 9818925122fe1161eab1ac5ee64dbe52c79e9cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:51 +0000
Subject: [PATCH 60/86] fix: websocket clients work without an environment and
 forget partial frames of earlier connections

---
 vtelem/client/websocket.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vtelem/client/websocket.py b/vtelem/client/websocket.py
index 277f30e..2cb2691 100644
--- a/vtelem/client/websocket.py
+++ b/vtelem/client/websocket.py
@@ -18,6 +18,7 @@ from vtelem.classes.type_primitive import TypePrimitive, new_default
 from vtelem.client import TelemetryClient
 from vtelem.daemon import DaemonState
 from vtelem.daemon.event_loop import EventLoopDaemon
+from vtelem.frame.processor import FrameProcessor
 from vtelem.mtu import DEFAULT_MTU, Host
 from vtelem.telemetry.environment import TelemetryEnvironment
 
@@ -56,7 +57,10 @@ class WebsocketClient(EventLoopDaemon, TelemetryClient):
             """Handle a websocket-client connection."""
 
             frame_size = new_default("count")
-            assert self.env is not None
+
+            # bytes left over from an earlier connection don't belong to this
+            # one
+            self.processor = FrameProcessor()
             try:
                 while self.state != DaemonState.STOPPING:
                     self.handle_frames(
-- 
2.43.0


From ead3493a4f518e3f2a4aa78bab5f4d99fb2e830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:51 +0000
Subject: [PATCH 61/86] fix: a socket client whose stream ended says so and can
 connect again

---
 vtelem/client/socket.py | 16 ++++++++++++----
 vtelem/client/tcp.py    |  1 +
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/vtelem/client/socket.py b/vtelem/client/socket.py
index 33aa19b..4d811ce 100644
--- a/vtelem/client/socket.py
+++ b/vtelem/client/socket.py
@@ -48,10 +48,13 @@ class SocketClient(DaemonBase, TelemetryClient):
         def closer() -> None:
             """
             Close the socket and signal the output stream that the stream has
-            ended.
+            ended, once for every connection.
             """
 
-            self.socket.close()
+            with self.lock:
+                if self.socket.fileno() == -1:
+                    return
+                self.socket.close()
             output_stream.put(None)
 
         self.function["close"] = closer
@@ -62,7 +65,10 @@ class SocketClient(DaemonBase, TelemetryClient):
             queue that frames are over.
             """
             LOG.info("%s: closing socket reader", self.name)
-            stopper()
+            try:
+                stopper()
+            except OSError as exc:
+                LOG.info("%s: stream already ended: %s", self.name, exc)
             self.close()
 
         self.function["inject_stop"] = stop_server
@@ -90,7 +96,6 @@ class SocketClient(DaemonBase, TelemetryClient):
         self.processor = FrameProcessor()
 
         frame_size = new_default("count")
-        assert self.env is not None
 
         while self.state != DaemonState.STOPPING:
             try:
@@ -116,3 +121,6 @@ class SocketClient(DaemonBase, TelemetryClient):
             except OSError as exc:
                 LOG.error("%s: %s", self.name, exc)
                 break
+
+        # The stream may have ended without us being stopped.
+        self.close()
diff --git a/vtelem/client/tcp.py b/vtelem/client/tcp.py
index c587dbe..c951b31 100644
--- a/vtelem/client/tcp.py
+++ b/vtelem/client/tcp.py
@@ -57,6 +57,7 @@ class TcpClient(SocketClient):
             result = curr_sock
             if result.fileno() == -1:
                 result = socket.create_connection(host)
+                result.settimeout(0.1)
             return result
 
         self.function["init"] = connect
-- 
2.43.0


From 465bb1b47ecf39456a96ed13801db59855845936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:49 +0000
Subject: [PATCH 62/86] fix: socket clients report the end of their stream
 once, after the last frame

---
 vtelem/client/socket.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/vtelem/client/socket.py b/vtelem/client/socket.py
index 4d811ce..c22c869 100644
--- a/vtelem/client/socket.py
+++ b/vtelem/client/socket.py
@@ -48,14 +48,17 @@ class SocketClient(DaemonBase, TelemetryClient):
         def closer() -> None:
             """
             Close the socket and signal the output stream that the stream has
-            ended, once for every connection.
+            ended, if we're running that's done after the last frame.
             """
 
             with self.lock:
-                if self.socket.fileno() == -1:
-                    return
+                ended = (
+                    self.state == DaemonState.IDLE
+                    and self.socket.fileno() != -1
+                )
                 self.socket.close()
-            output_stream.put(None)
+            if ended:
+                output_stream.put(None)
 
         self.function["close"] = closer
 
@@ -85,6 +88,15 @@ class SocketClient(DaemonBase, TelemetryClient):
         self.function["close"]()
 
     def run(self, *_, **__) -> None:
+        """Read from the listener until the stream ends, for any reason."""
+
+        try:
+            self.read_frames()
+        finally:
+            self.socket.close()
+            self.frames.put(None)
+
+    def read_frames(self) -> None:
         """Read from the listener and enqueue decoded frames."""
 
         # If an 'init' function is provided, re-initialize the socket.
@@ -121,6 +133,3 @@ class SocketClient(DaemonBase, TelemetryClient):
             except OSError as exc:
                 LOG.error("%s: %s", self.name, exc)
                 break
-
-        # The stream may have ended without us being stopped.
-        self.close()
-- 
2.43.0


From 902562bc1f099bc2765d282f29bbcdea560fd9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:48 +0000
Subject: [PATCH 63/86] fix: a full frame queue doesn't block everything that
 needs the environment's lock

---
 vtelem/channel/environment.py | 65 ++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 17 deletions(-)

diff --git a/vtelem/channel/environment.py b/vtelem/channel/environment.py
index 6077e1b..75aa048 100644
--- a/vtelem/channel/environment.py
+++ b/vtelem/channel/environment.py
@@ -4,8 +4,11 @@ vtelem - Exposes a runtime environment for managing sets of channels.
 
 # built-in
 from collections import defaultdict
+from contextlib import contextmanager
 import logging
-from typing import Any, Dict, List, Optional, Tuple
+from queue import Queue
+from threading import RLock
+from typing import Any, Dict, Iterator, List, Optional, Tuple
 
 # internal
 from vtelem.channel import Channel
@@ -60,6 +63,7 @@ class ChannelEnvironment(TimeEntity):
         if metrics_rate is not None:
             self.register_base_metrics(metrics_rate)
         self.frame_queue: MeteredQueue = MeteredQueue("frame", self)
+        self.dispatch_lock = RLock()
         self.log_data: dict = defaultdict(lambda: 0.0)
 
     @property
@@ -109,8 +113,11 @@ class ChannelEnvironment(TimeEntity):
     ) -> None:
         """Add a new, named metric channel"""
 
+        if self.metrics is None or self.has_metric(name):
+            return
+
         with self.lock:
-            if self.metrics is not None and not self.has_metric(name):
+            if not self.has_metric(name):
                 # the first metric is the rate of all metrics
                 rate = (
                     self.get_metric("metrics_rate")
@@ -224,9 +231,9 @@ class ChannelEnvironment(TimeEntity):
     def dispatch(self, time: float, should_log: bool = True) -> int:
         """Dispatch events and channel emissions."""
 
-        with self.lock:
-            data = self.dispatch_data(time)
-            events = self.dispatch_events(time)
+        with self.dispatching() as frames:
+            data = self.build_data(time, frames)
+            events = self.build_events(time, frames)
             self.metric_add("dispatch_count", 1)
 
         total = data[0] + events[0]
@@ -266,26 +273,50 @@ class ChannelEnvironment(TimeEntity):
 
         return decode_frame(self.channel_registry, data, size, expected_id)
 
-    def dispatch_events(self, time: float) -> Tuple[int, int]:
+    @contextmanager
+    def dispatching(self) -> Iterator[Queue]:
+        """
+        Collect frames while the environment is locked, but don't block
+        everything that needs the lock while the frame queue is full.
+        """
+
+        with self.dispatch_lock:
+            frames: Queue = Queue()
+            try:
+                with self.lock:
+                    yield frames
+            finally:
+                while not frames.empty():
+                    self.frame_queue.put(frames.get())
+
+    def build_events(self, time: float, frames: Queue) -> Tuple[int, int]:
         """Process all queued events (build frames)."""
 
-        with self.lock:
-            result = self.framer.build_event_frames(
-                time, self.event_queue, self.frame_queue, self.write_crc
-            )
-            self.metric_add("events_captured", result[1], time)
+        result = self.framer.build_event_frames(
+            time, self.event_queue, frames, self.write_crc
+        )
+        self.metric_add("events_captured", result[1], time)
         return result
 
-    def dispatch_data(self, time: float) -> Tuple[int, int]:
+    def build_data(self, time: float, frames: Queue) -> Tuple[int, int]:
         """Process all channel emissions for the specified, absolute time."""
 
-        with self.lock:
-            result = self.framer.build_data_frames(
-                time, self.frame_queue, self.write_crc
-            )
-            self.metric_add("emits_captured", result[1], time)
+        result = self.framer.build_data_frames(time, frames, self.write_crc)
+        self.metric_add("emits_captured", result[1], time)
         return result
 
+    def dispatch_events(self, time: float) -> Tuple[int, int]:
+        """Process all queued events (build frames)."""
+
+        with self.dispatching() as frames:
+            return self.build_events(time, frames)
+
+    def dispatch_data(self, time: float) -> Tuple[int, int]:
+        """Process all channel emissions for the specified, absolute time."""
+
+        with self.dispatching() as frames:
+            return self.build_data(time, frames)
+
     def dispatch_now(self, *_, should_log: bool = True, **__) -> int:
         """Dispatch telemetry at the current time."""
 
-- 
2.43.0


From 5bd9e4df12d3b9b306e5f47e12ddcc004089087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:23 +0000
Subject: [PATCH 64/86] fix: a frame queue that is removed while it's full
 doesn't block the writer forever

---
 vtelem/stream/writer.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index 4a94a9c..9b5698f 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -8,7 +8,7 @@ from contextlib import contextmanager
 from io import BytesIO
 import logging
 from pathlib import Path
-from queue import Queue
+from queue import Full, Queue
 from threading import Semaphore
 from typing import (
     Any,
@@ -35,6 +35,7 @@ from vtelem.mtu import Host
 from vtelem.telemetry.environment import TelemetryEnvironment
 
 LOG = logging.getLogger(__name__)
+POLL_PERIOD = 0.1
 Stream = Union[BinaryIO, BytesIO]
 
 
@@ -73,7 +74,7 @@ class StreamWriter(QueueDaemon):
                 array, size = frame.with_size_header(frame_size)
 
                 with self.lock:
-                    queues = list(self.queues.values())
+                    queues = self.queues.copy()
                     streams = self.streams.copy()
 
                 to_remove = []
@@ -106,9 +107,11 @@ class StreamWriter(QueueDaemon):
                     )
 
             # add to queues
-            for queue in queues:
-                queue.put(frame)
-            self.increment_metric("queue_writes", len(queues))
+            writes = sum(
+                self.put_queue(queue_id, queue, frame)
+                for queue_id, queue in queues.items()
+            )
+            self.increment_metric("queue_writes", writes)
 
         super().__init__(name, frame_queue, frame_handle, env, time_keeper)
 
@@ -143,6 +146,22 @@ class StreamWriter(QueueDaemon):
         self.increment_metric("queue_count")
         return result
 
+    def put_queue(
+        self, queue_id: int, queue: Queue, frame: Optional[ChannelFrame]
+    ) -> bool:
+        """
+        Add a frame to a queue, wait for space only while it's registered:
+        nobody may be left to make some.
+        """
+
+        while queue_id in self.queues:
+            try:
+                queue.put(frame, timeout=POLL_PERIOD)
+                return True
+            except Full:
+                continue
+        return False
+
     def registered_queue(
         self,
         name: str = None,
-- 
2.43.0


From 0443fe69941e1c54144b4918645fa216416584ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:21 +0000
Subject: [PATCH 65/86] fix: the telemetry server starts without the websocket
 command service

---
 vtelem/telemetry/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index 445a8ef..b2150ad 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -143,7 +143,7 @@ class TelemetryServer(HttpDaemon):
                 telem,
                 self.time_keeper,
             )
-        assert self.daemons.add_daemon(ws_cmd, ["stream"])
+            assert self.daemons.add_daemon(ws_cmd, ["stream"])
 
         # make the daemon-manager commandable
         create_daemon_manager_commander(self.daemons, queue_daemon)
-- 
2.43.0


From 6815909f17387258a87e142b28fabc8655159f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:32 +0000
Subject: [PATCH 66/86] fix: a telemetry server with http disabled doesn't
 listen for requests

---
 vtelem/telemetry/server.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index b2150ad..968ed83 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -119,14 +119,18 @@ class TelemetryServer(HttpDaemon):
             )
 
         # add the http daemon
+        self.http_enabled = services.http.enabled
         super().__init__(
             services.http.name,
-            services.http.host,
+            services.http.host if self.http_enabled else None,
             MapperAwareRequestHandler,
             telem,
             self.time_keeper,
         )
-        self.http_enabled = services.http.enabled
+
+        # don't listen for requests that won't be handled
+        if not self.http_enabled:
+            self.close()
 
         # add the command-queue daemon
         queue_daemon = CommandQueueDaemon("command", telem, self.time_keeper)
-- 
2.43.0


From 85cf71ecce5ddf543847bcc3c4e7a356a93a5878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:43 +0000
Subject: [PATCH 67/86] fix: the tcp telemetry service is reported by the
 service registry

---
 vtelem/daemon/tcp_telemetry.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/vtelem/daemon/tcp_telemetry.py b/vtelem/daemon/tcp_telemetry.py
index 12aff43..5182f1b 100644
--- a/vtelem/daemon/tcp_telemetry.py
+++ b/vtelem/daemon/tcp_telemetry.py
@@ -14,6 +14,7 @@ from typing import Any, Dict, Tuple
 from vtelem.client.tcp import TcpClient
 from vtelem.daemon import DaemonBase, DaemonState
 from vtelem.mtu import DEFAULT_MTU, Host
+from vtelem.registry.service import ServiceRegistry
 from vtelem.stream.writer import QueueClientManager, StreamWriter
 from vtelem.telemetry.environment import TelemetryEnvironment
 
@@ -125,7 +126,15 @@ class TcpTelemetryDaemon(QueueClientManager, DaemonBase):
 
         return self.server.server_address
 
-    def run(self, *_, **__) -> None:
+    def run(
+        self,
+        *_,
+        first_start: bool = False,
+        service_registry: ServiceRegistry = None,
+        **__,
+    ) -> None:
         """Listen for client connections."""
 
+        if first_start and service_registry is not None:
+            service_registry.add(self.name, [self.address])
         self.server.serve_forever(0.1)
-- 
2.43.0


From 264a53b600118078fc40879e8caaeb3b030eeae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:57 +0000
Subject: [PATCH 68/86] fix: telemetry servers stop right after they started
 and while daemons are paused

---
 vtelem/daemon/manager.py   |  8 ++++++++
 vtelem/telemetry/server.py | 10 +++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/vtelem/daemon/manager.py b/vtelem/daemon/manager.py
index 499a809..9ff35de 100644
--- a/vtelem/daemon/manager.py
+++ b/vtelem/daemon/manager.py
@@ -5,6 +5,7 @@ vtelem - Allows singleton management of application daemons.
 # built-in
 from collections import defaultdict
 import logging
+import time
 from typing import Dict, List, Optional
 
 # internal
@@ -12,6 +13,7 @@ from vtelem.classes.time_entity import LockEntity
 from vtelem.daemon import DaemonBase
 from vtelem.enums.daemon import (
     DaemonOperation,
+    DaemonState,
     operation_str,
     str_to_operation,
 )
@@ -132,6 +134,12 @@ class DaemonManager(LockEntity):
             return False
         return self.perform(name, action, *args, **kwargs)
 
+    def await_started(self, interval: float = 0.001) -> None:
+        """Wait until none of the daemons is still starting, via polling."""
+
+        while DaemonState.STARTING in self.states(False).values():
+            time.sleep(interval)
+
     def states(self, as_str: bool = True) -> dict:
         """Get all daemon states as a dictionary."""
 
diff --git a/vtelem/telemetry/server.py b/vtelem/telemetry/server.py
index 968ed83..ccbcb88 100644
--- a/vtelem/telemetry/server.py
+++ b/vtelem/telemetry/server.py
@@ -7,6 +7,7 @@ from collections import defaultdict
 from contextlib import contextmanager
 import socket
 import threading
+import time
 from typing import Any, Dict, Iterator
 
 # internal
@@ -14,7 +15,7 @@ from vtelem.channel.group_registry import ChannelGroupRegistry
 from vtelem.classes.http_request_mapper import MapperAwareRequestHandler
 from vtelem.classes.time_keeper import TimeKeeper
 from vtelem.classes.udp_client_manager import UdpClientManager
-from vtelem.daemon import DaemonOperation
+from vtelem.daemon import DaemonOperation, DaemonState
 from vtelem.daemon.command_queue import CommandQueueDaemon
 from vtelem.daemon.http import HttpDaemon
 from vtelem.daemon.manager import DaemonManager
@@ -195,6 +196,7 @@ class TelemetryServer(HttpDaemon):
     def scale_speed(self, scalar: float) -> None:
         """Change the time scaling for the time keeper."""
 
+        self.daemons.await_started()
         assert self.daemons.perform_all(DaemonOperation.PAUSE)
         self.time_keeper.scale(scalar)
         assert self.daemons.perform_all(DaemonOperation.UNPAUSE)
@@ -217,9 +219,15 @@ class TelemetryServer(HttpDaemon):
     def stop_all(self) -> None:
         """Stop everything."""
 
+        # only daemons that are running can be stopped
+        self.daemons.await_started()
+        self.daemons.perform_all(DaemonOperation.UNPAUSE)
         assert self.daemons.perform_all(DaemonOperation.STOP)
 
         if self.http_enabled:
+            while self.get_state() == DaemonState.STARTING:
+                time.sleep(0.001)
+            self.perform(DaemonOperation.UNPAUSE)
             assert self.perform(DaemonOperation.STOP)
         self.close()
 
-- 
2.43.0


From 71b7f7000c497287b948c3846333eb565eb6f74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:57 +0000
Subject: [PATCH 69/86] fix: channels with a rate that isn't finite are
 described as valid JSON

---
 vtelem/channel/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vtelem/channel/__init__.py b/vtelem/channel/__init__.py
index 831445f..2b66267 100644
--- a/vtelem/channel/__init__.py
+++ b/vtelem/channel/__init__.py
@@ -4,6 +4,7 @@ vtelem - A storage class that emits on an interval.
 
 # built-in
 from json import JSONEncoder
+from math import isfinite
 from threading import RLock
 from typing import Any, Optional
 
@@ -109,7 +110,8 @@ class ChannelEncoder(JSONEncoder):
         }
         result = {
             "name": o.name,
-            "rate": o.rate,
+            # numbers that aren't finite aren't valid in JSON
+            "rate": o.rate if isfinite(o.rate) else None,
             "commandable": o.commandable,
             "type": type_dict,
         }
-- 
2.43.0


From 7ba2f0dbea7d2adee5b2b186cbfdab14936354d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:43 +0000
Subject: [PATCH 70/86] fix: websocket commands that can't be decoded get an
 answer

---
 vtelem/factories/websocket_daemon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/factories/websocket_daemon.py b/vtelem/factories/websocket_daemon.py
index eb4a289..e123924 100644
--- a/vtelem/factories/websocket_daemon.py
+++ b/vtelem/factories/websocket_daemon.py
@@ -37,7 +37,7 @@ def commandable_websocket_daemon(
             cmd_result = daemon.execute(json.loads(message))
             result["success"] = cmd_result[0]
             result["message"] = cmd_result[1]
-        except json.decoder.JSONDecodeError as exc:
+        except (ValueError, RecursionError) as exc:
             result["message"] = str(exc)
 
         await websocket.send(json.dumps(result))
-- 
2.43.0


From 066876a024fa502e645f157cd91f74ae0f3c12ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:14 +0000
Subject: [PATCH 71/86] fix: a task can stop the daemon it runs in

---
 vtelem/daemon/__init__.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vtelem/daemon/__init__.py b/vtelem/daemon/__init__.py
index 1409ae9..53a4f2b 100644
--- a/vtelem/daemon/__init__.py
+++ b/vtelem/daemon/__init__.py
@@ -364,6 +364,10 @@ class DaemonBase(TimeEntity):
     def restart(self, *args, **kwargs) -> bool:
         """Attempt to restart this daemon."""
 
+        # a daemon's own thread can't wait until it has ended
+        if threading.current_thread() is self.thread:
+            return False
+
         if self.stop():
             return self.start(*args, **kwargs)
         return False
@@ -377,11 +381,16 @@ class DaemonBase(TimeEntity):
         # if we should stop, wait for the thread to be joined
         thread = self.stopping
         assert thread is not None
-        thread.join(timeout=timeout)
+
+        # a daemon's own thread ends once it's done with what it's doing
+        own = threading.current_thread() is thread
+        if not own:
+            thread.join(timeout=timeout)
         with self.lock:
             # somebody else may have started a new thread by now
             if self.thread is thread:
                 self.thread = None
-            self.increment_metric("errors" if thread.is_alive() else "stops")
+            error = thread.is_alive() and not own
+            self.increment_metric("errors" if error else "stops")
 
         return True
-- 
2.43.0


From b624cdcaf9c1a673c97655d37ca254099902f4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:58 +0000
Subject: [PATCH 72/86] fix: describing a channel group while channels are
 added to it

---
 vtelem/channel/group_registry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vtelem/channel/group_registry.py b/vtelem/channel/group_registry.py
index ba0d2f4..1a1af08 100644
--- a/vtelem/channel/group_registry.py
+++ b/vtelem/channel/group_registry.py
@@ -21,9 +21,12 @@ class ChannelGroupEncoder(JSONEncoder):
         """Implement serialization for the channel group."""
 
         assert isinstance(o, ChannelGroup)
+
+        # channels may be added to the group at any time
+        channels = list(o.channels.items())
         return {
             "name": o.name,
-            "channels": {name: chan["id"] for name, chan in o.channels.items()},
+            "channels": {name: chan["id"] for name, chan in channels},
         }
 
 
-- 
2.43.0


From 5f0dd6a27b86303098d4764a4636a3db7aac2b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:07 +0000
Subject: [PATCH 73/86] fix: shutting down by request is answered before the
 program ends

---
 vtelem/factories/telemetry_server.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vtelem/factories/telemetry_server.py b/vtelem/factories/telemetry_server.py
index b52d219..506085b 100644
--- a/vtelem/factories/telemetry_server.py
+++ b/vtelem/factories/telemetry_server.py
@@ -5,6 +5,7 @@ vtelem - A module for creating functions based on a telemetry server instance.
 # built-in
 from http.server import BaseHTTPRequestHandler
 import json
+from threading import Thread, current_thread
 from typing import Any, Tuple
 
 # internal
@@ -36,6 +37,10 @@ def register_http_handlers(
         if our_id.get() != int(provided_id):
             msg = "'app_id' mismatch, expected '{}' got '{}'"
             return False, msg.format(our_id.get(), int(provided_id))
+
+        # the program may end once everything is stopped, but not before the
+        # thread handling this request has sent the response
+        Thread(target=current_thread().join, daemon=False).start()
         server.stop_all()
         return True, "success"
 
-- 
2.43.0


From a9fde48143ad44b54a2f0fa31b43d5bf2e7abdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:20 +0000
Subject: [PATCH 74/86] fix: a tcp telemetry server can use an address that was
 just used

---
 vtelem/daemon/tcp_telemetry.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/vtelem/daemon/tcp_telemetry.py b/vtelem/daemon/tcp_telemetry.py
index 5182f1b..eb73e3d 100644
--- a/vtelem/daemon/tcp_telemetry.py
+++ b/vtelem/daemon/tcp_telemetry.py
@@ -65,6 +65,15 @@ class TcpTelemetryHandler(socketserver.StreamRequestHandler):
             daemon.decrement_metric("clients")
 
 
+class TcpTelemetryServer(socketserver.ThreadingTCPServer):
+    """
+    A server for telemetry clients, its address can be used again while
+    connections of an earlier server are still known to the system.
+    """
+
+    allow_reuse_address = True
+
+
 class TcpTelemetryDaemon(QueueClientManager, DaemonBase):
     """A class for serving telemetry frames to tcp clients."""
 
@@ -84,9 +93,7 @@ class TcpTelemetryDaemon(QueueClientManager, DaemonBase):
         QueueClientManager.__init__(self, name, writer)
         DaemonBase.__init__(self, name, env, time_keeper)
 
-        self.server = socketserver.ThreadingTCPServer(
-            address, TcpTelemetryHandler
-        )
+        self.server = TcpTelemetryServer(address, TcpTelemetryHandler)
         self.client_sems: Dict[int, Semaphore] = {}
         self.reset_metric("clients")
 
-- 
2.43.0


From d0128e041c171e1d3d9e3d6a20e08be4dc7ee7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:10 +0000
Subject: [PATCH 75/86] fix: interrupting the program while it starts ends it

---
 vtelem/app.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/vtelem/app.py b/vtelem/app.py
index 3abee27..7904767 100644
--- a/vtelem/app.py
+++ b/vtelem/app.py
@@ -4,6 +4,7 @@ vtelem - This package's command-line entry-point application.
 
 # built-in
 import argparse
+import signal
 import socket
 
 # third-party
@@ -51,9 +52,17 @@ def entry(args: argparse.Namespace) -> int:
 
     # run until the server shuts down because of timeout, external command, or
     # interruption
-    server.start_all()
-    server.scale_speed(args.time_scale)
-    server.await_shutdown(args.uptime)
+    try:
+        # starting can't be interrupted half-way, only afterwards
+        mask = signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGINT])
+        try:
+            server.start_all()
+            server.scale_speed(args.time_scale)
+        finally:
+            signal.pthread_sigmask(signal.SIG_SETMASK, mask)
+        server.await_shutdown(args.uptime)
+    except KeyboardInterrupt:  # pragma: no cover
+        server.stop_all()
     return 0
 
 
-- 
2.43.0


From a647a4fe4fc9ca8c323da41475eab1ed20230a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:59 +0000
Subject: [PATCH 76/86] fix: writing data that doesn't fit leaves a buffer as
 it was

---
 vtelem/classes/byte_buffer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/byte_buffer.py b/vtelem/classes/byte_buffer.py
index 8303d23..887f969 100644
--- a/vtelem/classes/byte_buffer.py
+++ b/vtelem/classes/byte_buffer.py
@@ -167,7 +167,10 @@ class ByteBuffer:
         if not self.mutable:
             return 0
         size = get_size(inst)
-        self.expand_to(self.get_pos() + size)
-        struct.pack_into(self.fstring(inst), self.data, self.get_pos(), data)
+        # encode first, data that doesn't fit must not change the buffer
+        raw = struct.pack(self.fstring(inst), data)
+        pos = self.get_pos()
+        self.expand_to(pos + size)
+        self.data[pos : pos + size] = raw
         self.advance(size, True)
         return size
-- 
2.43.0


From 6c869f0faeadf83669e95be61a4cc3e1e3c55cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:06 +0000
Subject: [PATCH 77/86] fix: appending to a buffer only counts the bytes there
 are

---
 vtelem/classes/byte_buffer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/byte_buffer.py b/vtelem/classes/byte_buffer.py
index 887f969..5a221ca 100644
--- a/vtelem/classes/byte_buffer.py
+++ b/vtelem/classes/byte_buffer.py
@@ -142,7 +142,8 @@ class ByteBuffer:
     def append(self, other: bytes, data_len: int = None) -> int:
         """Add raw data to the end of this set."""
 
-        if data_len is None:
+        # there may be less data than requested
+        if data_len is None or data_len > len(other):
             data_len = len(other)
         self.data = self.data[0 : self.size] + other[0:data_len]
 
-- 
2.43.0


From 85c859b04a72aaa5080322ee5576097012d9bcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:33 +0000
Subject: [PATCH 78/86] fix: immutable buffers never change, refused reads
 don't move the position

---
 vtelem/classes/byte_buffer.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/vtelem/classes/byte_buffer.py b/vtelem/classes/byte_buffer.py
index 5a221ca..fb458aa 100644
--- a/vtelem/classes/byte_buffer.py
+++ b/vtelem/classes/byte_buffer.py
@@ -72,7 +72,7 @@ class ByteBuffer:
     def expand_to(self, size: int) -> None:
         """Extend the backing buffer if requested."""
 
-        if size > len(self.data):
+        if self.mutable and size > len(self.data):
             self.data += bytearray(size - len(self.data))
 
     def set_pos(self, pos: int) -> None:
@@ -86,7 +86,7 @@ class ByteBuffer:
         """Advance the current position by a specified amount."""
 
         self.set_pos(self.get_pos() + amount)
-        if inc_size and (self.get_pos() > self.size):
+        if self.mutable and inc_size and (self.get_pos() > self.size):
             self.size += self.get_pos() - self.size
 
     def get_pos(self) -> int:
@@ -126,13 +126,15 @@ class ByteBuffer:
 
         assert self.remaining >= count
         pos = self.get_pos()
+
+        # bytes can only be consumed from the front of the buffer
+        assert not chomp or (self.mutable and pos == 0)
+
         result = self.data[pos : pos + count]
         self.advance(count)
 
-        # actually consume the bytes, can only be done from the front of the
-        # buffer
+        # actually consume the bytes
         if chomp:
-            assert pos == 0
             self.data = self.data[pos + count :]
             self.size = self.remaining
             self.set_pos(0)
@@ -142,6 +144,9 @@ class ByteBuffer:
     def append(self, other: bytes, data_len: int = None) -> int:
         """Add raw data to the end of this set."""
 
+        if not self.mutable:
+            return 0
+
         # there may be less data than requested
         if data_len is None or data_len > len(other):
             data_len = len(other)
-- 
2.43.0


From 347a650df04039cecbb3862717e52474434b4dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:31 +0000
Subject: [PATCH 79/86] fix: cached data is saved and loaded whatever dots its
 names have

---
 vtelem/classes/data_cache.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vtelem/classes/data_cache.py b/vtelem/classes/data_cache.py
index 7374f14..30687f3 100644
--- a/vtelem/classes/data_cache.py
+++ b/vtelem/classes/data_cache.py
@@ -33,7 +33,7 @@ class DataCache:
         self.data = merge(
             self.data,
             ARBITER.decode_directory(
-                directory, require_success=True, recurse=True
+                directory, require_success=True, recurse=True, maxsplit=-1
             ).data,
         )
         self.loaded.append(directory)
@@ -41,7 +41,9 @@ class DataCache:
     def write(self) -> None:
         """Write cache contents to disk."""
 
-        ARBITER.encode_directory(self.cache_dir, self.data, "yaml")
+        ARBITER.encode_directory(
+            self.cache_dir, self.data, "yaml", maxsplit=-1
+        )
 
     def clean(self) -> None:
         """Clean the cache contents from disk."""
-- 
2.43.0


From 1b176cea5b3aa434de6b34567a5b22fb38907e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:22 +0000
Subject: [PATCH 80/86] fix: entries removed from a data cache aren't loaded
 again once it's written

---
 vtelem/classes/data_cache.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/data_cache.py b/vtelem/classes/data_cache.py
index 30687f3..03832ad 100644
--- a/vtelem/classes/data_cache.py
+++ b/vtelem/classes/data_cache.py
@@ -5,7 +5,7 @@ vtelem - A module implementing a simple cache for arbitrary data.
 # built-in
 import os
 import shutil
-from typing import List
+from typing import List, Set
 
 # third-party
 from vcorelib.dict import merge
@@ -20,6 +20,7 @@ class DataCache:
 
         self.data: dict = {}
         self.loaded: List[str] = []
+        self.entries: Set[str] = set()
         self.cache_dir = cache_dir
         self.load(self.cache_dir)
 
@@ -30,6 +31,8 @@ class DataCache:
             return
 
         os.makedirs(self.cache_dir, exist_ok=True)
+        if directory == self.cache_dir:
+            self.entries.update(os.listdir(directory))
         self.data = merge(
             self.data,
             ARBITER.decode_directory(
@@ -45,10 +48,22 @@ class DataCache:
             self.cache_dir, self.data, "yaml", maxsplit=-1
         )
 
+        # what was loaded or written before and isn't cached anymore (or was
+        # written to another file now) must not be loaded again
+        current = {f"{key}.yaml" for key in self.data}
+        for entry in self.entries - current:
+            path = os.path.join(self.cache_dir, entry)
+            if os.path.isdir(path):
+                shutil.rmtree(path)
+            elif os.path.exists(path):
+                os.remove(path)
+        self.entries = current
+
     def clean(self) -> None:
         """Clean the cache contents from disk."""
 
         self.data = {}
         self.loaded = []
+        self.entries = set()
         shutil.rmtree(self.cache_dir)
         self.load(self.cache_dir)
-- 
2.43.0


From ba3523820137498f1ce345d6020bcce3b9572214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:34 +0000
Subject: [PATCH 81/86] fix: objects loaded from JSON are validated like the
 object that loads them

---
 vtelem/classes/serdes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vtelem/classes/serdes.py b/vtelem/classes/serdes.py
index 7d611e7..b04e71c 100644
--- a/vtelem/classes/serdes.py
+++ b/vtelem/classes/serdes.py
@@ -145,7 +145,7 @@ class Serializable:
         """Create a serializable from a text stream loaded as JSON."""
 
         data: ObjectData = load(stream, cls=self.params.decoder, **load_kwargs)
-        return self.__class__(data, self.params)
+        return self.__class__(data, self.params, self.log, self.manager)
 
     def load_str(self, data: str, **load_kwargs) -> "Serializable":
         """Create a serializable from a String loaded as JSON."""
-- 
2.43.0


From 424acae94fe41248f6e97a026d909ca00feb8aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:33 +0000
Subject: [PATCH 82/86] fix: adding a udp client that is dropped right away
 doesn't raise

---
 vtelem/classes/udp_client_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vtelem/classes/udp_client_manager.py b/vtelem/classes/udp_client_manager.py
index 4dc5304..d185155 100644
--- a/vtelem/classes/udp_client_manager.py
+++ b/vtelem/classes/udp_client_manager.py
@@ -79,12 +79,13 @@ class UdpClientManager(LockEntity):
         mtu -= 60 + 8  # subtract ip and udp header space
         sock_file = cast(socket.socket, sock).makefile("wb")
         sock_file.flush()
+        name = sock.getsockname()
 
         with self.lock:
             sock_id = self.writer.add_stream(sock_file, flush=flush)
             self.clients[sock_id] = (sock, sock_file)
 
-        name = sock.getsockname()
+        # it may have been closed already
         LOG.info(
             "adding stream client '%s:%d' -> '%s:%d'",
             name[0],
-- 
2.43.0


From 7e141449e45ba609f926d953546ff67dc7294b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:07 +0000
Subject: [PATCH 83/86] fix: a handler can stop its queue daemon while the
 queue is full

---
 vtelem/daemon/queue.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/vtelem/daemon/queue.py b/vtelem/daemon/queue.py
index 0ead3c1..6c311f5 100644
--- a/vtelem/daemon/queue.py
+++ b/vtelem/daemon/queue.py
@@ -3,7 +3,8 @@ vtelem - Uses daemon machinery to make servicing queues in threads simple.
 """
 
 # built-in
-from queue import Queue
+from queue import Full, Queue
+import threading
 from typing import Any, Callable
 
 # internal
@@ -30,7 +31,16 @@ class QueueDaemon(DaemonBase):
 
         def stop_injector() -> None:
             """Put a None into the queue as the signal for stopping."""
-            self.queue.put(None)
+
+            try:
+                self.queue.put_nowait(None)
+            except Full:
+                # a handler can't wait for space in its own queue
+                if threading.current_thread() is self.thread:
+                    args = (None,)
+                    threading.Thread(target=self.queue.put, args=args).start()
+                else:
+                    self.queue.put(None)
 
         self.function["inject_stop"] = stop_injector
 
-- 
2.43.0


From 3bcca3d1ba29a14537b52a46c81ea70c2282bd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:07 +0000
Subject: [PATCH 84/86] fix: a handler that raises doesn't end its queue daemon

---
 vtelem/daemon/queue.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vtelem/daemon/queue.py b/vtelem/daemon/queue.py
index 6c311f5..7463bd9 100644
--- a/vtelem/daemon/queue.py
+++ b/vtelem/daemon/queue.py
@@ -3,6 +3,7 @@ vtelem - Uses daemon machinery to make servicing queues in threads simple.
 """
 
 # built-in
+import logging
 from queue import Full, Queue
 import threading
 from typing import Any, Callable
@@ -11,6 +12,8 @@ from typing import Any, Callable
 from vtelem.daemon import DaemonBase
 from vtelem.telemetry.environment import TelemetryEnvironment
 
+LOG = logging.getLogger(__name__)
+
 
 class QueueDaemon(DaemonBase):
     """Implements a daemon thread for servicing queues."""
@@ -55,7 +58,12 @@ class QueueDaemon(DaemonBase):
 
         elem = self.queue.get()
         while elem is not None:
-            self.handle(elem)
-            self.queue.task_done()
+            # an element that can't be handled must not affect later ones
+            try:
+                self.handle(elem)
+            except Exception:  # pylint: disable=broad-except
+                LOG.exception("%s: handler raised", self.name)
+            finally:
+                self.queue.task_done()
             elem = self.queue.get()
         self.queue.task_done()
-- 
2.43.0


From 1cee7ec9c6f4299f64c2640cdf4364b9fd549a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:28 +0000
Subject: [PATCH 85/86] fix: removing a full queue from a stream writer doesn't
 block

---
 vtelem/stream/writer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vtelem/stream/writer.py b/vtelem/stream/writer.py
index 9b5698f..464735f 100644
--- a/vtelem/stream/writer.py
+++ b/vtelem/stream/writer.py
@@ -9,7 +9,7 @@ from io import BytesIO
 import logging
 from pathlib import Path
 from queue import Full, Queue
-from threading import Semaphore
+from threading import Semaphore, Thread
 from typing import (
     Any,
     BinaryIO,
@@ -274,7 +274,13 @@ class StreamWriter(QueueDaemon):
         if removed:
             if inject_none:
                 assert queue is not None
-                queue.put(None)
+                try:
+                    queue.put_nowait(None)
+                except Full:
+                    # don't wait for somebody to make space, we may be the one
+                    Thread(
+                        target=queue.put, args=(None,), daemon=True
+                    ).start()
             self.decrement_metric("queue_count")
         return removed
 
-- 
2.43.0


From 52bfc774ac2977696f1c328ad5855d4c7ca118fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:47 +0000
Subject: [PATCH 86/86] fix: a time keeper measures its iterations in real time

Its own time advances during an iteration, so the daemon loop took the
elapsed (scaled) time for the duration of the task: it slept too short,
ticked too early and counted overruns that there weren't.
---
 vtelem/classes/time_keeper.py | 3 +++
 vtelem/daemon/synchronous.py  | 7 ++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/vtelem/classes/time_keeper.py b/vtelem/classes/time_keeper.py
index a33ed3b..dadb247 100644
--- a/vtelem/classes/time_keeper.py
+++ b/vtelem/classes/time_keeper.py
@@ -41,6 +41,9 @@ class TimeKeeper(Daemon):
         super().__init__(name, self.iteration, rate)
         self.time = self.last_time_eval
         self.function["sleep"] = self.sleep_function
+
+        # our own time advances during an iteration, by what elapsed before
+        self.function["clock"] = self.time_function
         self.slaves: List[Any] = []
 
     def iteration(self, *_, **__) -> None:
diff --git a/vtelem/daemon/synchronous.py b/vtelem/daemon/synchronous.py
index 144d668..0133990 100644
--- a/vtelem/daemon/synchronous.py
+++ b/vtelem/daemon/synchronous.py
@@ -38,6 +38,7 @@ class Daemon(DaemonBase):
         self.function["task"] = task
         self.function["init"] = init
         self.function["rate"] = rate
+        self.function["clock"] = self.get_time
         if state_change_cb is not None:
             self.function["state_change"] = state_change_cb
 
@@ -91,9 +92,9 @@ class Daemon(DaemonBase):
                 continue
 
             # run the iteration
-            iter_start = self.get_time()
+            iter_start = self.function["clock"]()
             self.function["task"](*args, **kwargs)
-            iter_end = self.get_time()
+            iter_end = self.function["clock"]()
 
             # keep runtime metrics
             self.increment_metric("uptime", iter_end - iter_start)
@@ -102,7 +103,7 @@ class Daemon(DaemonBase):
             )
 
             # await the next iteration
-            sleep_amount = rate - (self.get_time() - iter_start)
+            sleep_amount = rate - (self.function["clock"]() - iter_start)
             if sleep_amount > 0.0:
                 self.function["sleep"](sleep_amount)
             elif self.function["overrun"] is not None:
-- 
2.43.0

