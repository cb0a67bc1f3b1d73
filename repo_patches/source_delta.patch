From 67a06288f3ee9b6e25c1f40fd548cb3a92122ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 01/16] fix: deliver a frame without payload as soon as its
 last byte arrives

---
 zigpy_cc/uart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy_cc/uart.py b/zigpy_cc/uart.py
index da15a3a..fbb3711 100644
--- a/zigpy_cc/uart.py
+++ b/zigpy_cc/uart.py
@@ -37,7 +37,7 @@ class Parser:
     def write(self, b: int):
         self.buffer += bytes([b])
         if SOF == self.buffer[0]:
-            if len(self.buffer) > MinMessageLength:
+            if len(self.buffer) >= MinMessageLength:
                 dataLength = self.buffer[PositionDataLength]
 
                 fcsPosition = DataStart + dataLength
-- 
2.43.0


From 3667c86350b55078cc4d7b286ada109c5ca7518a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:17 +0000
Subject: [PATCH 02/16] fix: keep processing received bytes after a frame that
 cannot be handled

---
 zigpy_cc/uart.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/zigpy_cc/uart.py b/zigpy_cc/uart.py
index fbb3711..222d348 100644
--- a/zigpy_cc/uart.py
+++ b/zigpy_cc/uart.py
@@ -145,11 +145,14 @@ class Gateway(asyncio.Protocol):
 
         found = False
         for b in data:
-            frame = self._parser.write(b)
-            if frame is not None:
-                found = True
-                LOGGER.debug("Frame received: %s", frame)
-                self._api.data_received(frame)
+            try:
+                frame = self._parser.write(b)
+                if frame is not None:
+                    found = True
+                    LOGGER.debug("Frame received: %s", frame)
+                    self._api.data_received(frame)
+            except Exception as exc:
+                LOGGER.error("Frame dropped: %s", data, exc_info=exc)
 
         if not found:
             LOGGER.info("Bytes received: %s", data)
-- 
2.43.0


From b47885b9290e882b4e1d27edfafaf19789323a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 03/16] fix: deliver replies to requests with transaction
 sequence number 0

---
 zigpy_cc/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index e0944e3..c4173a2 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -242,7 +242,7 @@ class API:
             if waiter.match(obj):
                 self._waiters.pop(waiter_id)
                 waiter.set_result(obj)
-                if waiter.sequence:
+                if waiter.sequence is not None:
                     obj.sequence = waiter.sequence
                     break
 
-- 
2.43.0


From 805cfedf9d21f00de9b6db6dfc07addfec197b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 04/16] fix: report the rejected command when its response
 waiter has expired

---
 zigpy_cc/api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index c4173a2..aade22c 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -144,8 +144,9 @@ class API:
                 and "status" in result.payload
                 and result.payload["status"] not in expected_status
             ):
-                if waiter_id is not None:
-                    self._waiters.pop(waiter_id).set_result(result)
+                waiter = self._waiters.pop(waiter_id, None)
+                if waiter is not None:
+                    waiter.set_result(result)
 
                 raise CommandError(
                     result.payload["status"],
-- 
2.43.0


From 48c1186565b09aa42ade23f47d87ffe455045c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:43 +0000
Subject: [PATCH 05/16] fix: tolerate a lost connection while no application is
 attached

---
 zigpy_cc/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index aade22c..667a248 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -108,7 +108,8 @@ class API:
             self._uart = None
 
     def connection_lost(self):
-        self._app.connection_lost()
+        if self._app is not None:
+            self._app.connection_lost()
 
     async def request(
         self, subsystem, command, payload, waiter_id=None, expected_status=None
-- 
2.43.0


From b20ef9700f410dac1f6e5f65148ba7f1f2a2f74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:51 +0000
Subject: [PATCH 06/16] fix: shut down cleanly when the adapter was never
 connected

---
 zigpy_cc/zigbee/application.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index d001efe..63e5db3 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -68,7 +68,8 @@ class ControllerApplication(zigpy.application.ControllerApplication):
 
     async def shutdown(self):
         """Shutdown application."""
-        self._api.close()
+        if self._api is not None:
+            self._api.close()
 
     def connection_lost(self):
         asyncio.create_task(self.reconnect())
-- 
2.43.0


From c3986cee7702827f66b9878700c02598cb584452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:48 +0000
Subject: [PATCH 07/16] fix: deliver unbind, power descriptor, match descriptor
 and leave replies

---
 zigpy_cc/zigbee/application.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 63e5db3..8452cd7 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -38,6 +38,10 @@ REQUESTS = {
     "activeEpRsp": (ZDOCmd.Active_EP_rsp, 2),
     "simpleDescRsp": (ZDOCmd.Simple_Desc_rsp, 2),
     "bindRsp": (ZDOCmd.Bind_rsp, 2),
+    "unbindRsp": (ZDOCmd.Unbind_rsp, 2),
+    "powerDescRsp": (ZDOCmd.Power_Desc_rsp, 2),
+    "matchDescRsp": (ZDOCmd.Match_Desc_rsp, 2),
+    "mgmtLeaveRsp": (ZDOCmd.Mgmt_Leave_rsp, 2),
 }
 
 IGNORED = (
-- 
2.43.0


From b0a74bb4eefd4aad8fb4afbf9e06bd8ac1801884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 08/16] fix: send messages of every application profile as AF
 data, only profile 0 as ZDO

---
 zigpy_cc/zpi_object.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zigpy_cc/zpi_object.py b/zigpy_cc/zpi_object.py
index d69c6a6..fed9157 100644
--- a/zigpy_cc/zpi_object.py
+++ b/zigpy_cc/zpi_object.py
@@ -1,4 +1,3 @@
-from zigpy.profiles import zha
 from zigpy.types import BroadcastAddress
 
 from zigpy_cc import uart
@@ -6,6 +5,8 @@ from zigpy_cc.buffalo import Buffalo, BuffaloOptions
 from zigpy_cc.definition import Definition
 from zigpy_cc.types import CommandType, ParameterType, Subsystem, AddressMode
 
+ZDO_PROFILE_ID = 0x0000
+
 BufferAndListTypes = [
     ParameterType.BUFFER,
     ParameterType.BUFFER8,
@@ -103,7 +104,7 @@ class ZpiObject:
         radius=30,
         addr_mode=None
     ):
-        if profile == zha.PROFILE_ID:
+        if profile != ZDO_PROFILE_ID:
             subsystem = Subsystem.AF
             if addr_mode is None:
                 cmd = next(c for c in Definition[subsystem] if c["ID"] == 1)
-- 
2.43.0


From 4a75e4d96b6e6cbad1689ae36d850219e823883e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:05 +0000
Subject: [PATCH 09/16] fix: encode ZDO requests that carry no destination
 address without one

---
 zigpy_cc/api.py        | 2 +-
 zigpy_cc/zpi_object.py | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index 667a248..47fdf56 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -184,7 +184,7 @@ class API:
         if obj.command_type == CommandType.SREQ and obj.command.endswith("Req"):
             rsp = obj.command.replace("Req", "Rsp")
             for cmd in Definition[obj.subsystem]:
-                if rsp == cmd["name"]:
+                if rsp == cmd["name"] and "dstaddr" in obj.payload:
                     payload = {"srcaddr": obj.payload["dstaddr"]}
                     return self.wait_for(
                         CommandType.AREQ, Subsystem.ZDO, rsp, payload, sequence=sequence
diff --git a/zigpy_cc/zpi_object.py b/zigpy_cc/zpi_object.py
index fed9157..6d0bf7e 100644
--- a/zigpy_cc/zpi_object.py
+++ b/zigpy_cc/zpi_object.py
@@ -156,9 +156,10 @@ class ZpiObject:
         else:
             # TODO
             # assert sequence == data[0]
-            payload = cls.read_parameters(
-                nwk.to_bytes(2, "little") + data[1:], parameters
-            )
+            data = data[1:]
+            if any(p["name"] == "dstaddr" for p in parameters):
+                data = nwk.to_bytes(2, "little") + data
+            payload = cls.read_parameters(data, parameters)
 
         return cls(
             cmd["type"], subsystem, name, cmd["ID"], payload, parameters, sequence
-- 
2.43.0


From 4145c01e16e95353ef89fcdc2276b464871aa12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:57 +0000
Subject: [PATCH 10/16] fix: run at most one reconnect loop at a time

---
 zigpy_cc/zigbee/application.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 8452cd7..10af9a0 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -66,6 +66,7 @@ class ControllerApplication(zigpy.application.ControllerApplication):
     def __init__(self, config: Dict[str, Any]):
         super().__init__(config=zigpy.config.ZIGPY_SCHEMA(config))
         self._api = None
+        self._reconnect_task: Optional[asyncio.Task] = None
 
         self.discovering = False
         self.version = {}
@@ -76,7 +77,9 @@ class ControllerApplication(zigpy.application.ControllerApplication):
             self._api.close()
 
     def connection_lost(self):
-        asyncio.create_task(self.reconnect())
+        if self._reconnect_task is not None:
+            self._reconnect_task.cancel()
+        self._reconnect_task = asyncio.create_task(self.reconnect())
 
     async def reconnect(self):
         while True:
-- 
2.43.0


From eca197eb6f567f95f537d72ffcc20f65038e9e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 11/16] fix: do not reconnect after shutdown

---
 zigpy_cc/zigbee/application.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 10af9a0..778176a 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -73,6 +73,8 @@ class ControllerApplication(zigpy.application.ControllerApplication):
 
     async def shutdown(self):
         """Shutdown application."""
+        if self._reconnect_task is not None:
+            self._reconnect_task.cancel()
         if self._api is not None:
             self._api.close()
 
-- 
2.43.0


From fb363fba0dd3f236827b837204853a52c88f51c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:15 +0000
Subject: [PATCH 12/16] fix: close the port when connecting is cancelled

---
 zigpy_cc/uart.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/zigpy_cc/uart.py b/zigpy_cc/uart.py
index 222d348..1a9e078 100644
--- a/zigpy_cc/uart.py
+++ b/zigpy_cc/uart.py
@@ -207,9 +207,13 @@ async def connect(config: Dict[str, Any], api, loop=None) -> Gateway:
         rtscts=rtscts,
     )
 
-    await connected_future
-
-    protocol.write(b"\xef")
-    await asyncio.sleep(1)
+    try:
+        await connected_future
+
+        protocol.write(b"\xef")
+        await asyncio.sleep(1)
+    except BaseException:
+        protocol.close()
+        raise
 
     return protocol
-- 
2.43.0


From 8e77c9df4f866e6f03e001dc60899126a46bb9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:24 +0000
Subject: [PATCH 13/16] fix: encode bindings to a group

---
 zigpy_cc/zpi_object.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zigpy_cc/zpi_object.py b/zigpy_cc/zpi_object.py
index 6d0bf7e..e1b1f3f 100644
--- a/zigpy_cc/zpi_object.py
+++ b/zigpy_cc/zpi_object.py
@@ -157,6 +157,9 @@ class ZpiObject:
             # TODO
             # assert sequence == data[0]
             data = data[1:]
+            if name in ("bindReq", "unbindReq") and len(data) == 14:
+                # a group address occupies the low bytes of the address field
+                data += b"\x00" * 6 + b"\xff"
             if any(p["name"] == "dstaddr" for p in parameters):
                 data = nwk.to_bytes(2, "little") + data
             payload = cls.read_parameters(data, parameters)
-- 
2.43.0


From e60c0b34d950b404d74d6855a0b9e765668dd6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:43 +0000
Subject: [PATCH 14/16] fix: attribute extended incoming messages to the device
 that sent them

---
 zigpy_cc/zigbee/application.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 778176a..1aae9ec 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -372,6 +372,12 @@ class ControllerApplication(zigpy.application.ControllerApplication):
             obj.command == "incomingMsg" or obj.command == "incomingMsgExt"
         ):
             # ZCL commands
+            if obj.command == "incomingMsgExt":
+                if obj.payload["srcaddrmode"] == AddressMode.ADDR_64BIT:
+                    ieee = nwk
+                else:
+                    # a short address occupies the low bytes of the address field
+                    nwk = int.from_bytes(bytes(nwk[:2]), "little")
             cluster_id = obj.payload["clusterid"]
             src_ep = obj.payload["srcendpoint"]
             dst_ep = obj.payload["dstendpoint"]
-- 
2.43.0


From 70e56e908846b774992f9ce59b990bde82895265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:25 +0000
Subject: [PATCH 15/16] fix: keep a configured PAN id of 0

---
 zigpy_cc/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/types.py b/zigpy_cc/types.py
index c3b56c8..1dc1940 100644
--- a/zigpy_cc/types.py
+++ b/zigpy_cc/types.py
@@ -109,7 +109,9 @@ class NetworkOptions(Repr):
         self.networkKey = config[zigpy.config.CONF_NWK_KEY] or (
             zigpy.config.cv_key([1, 3, 5, 7, 9, 11, 13, 15, 0, 2, 4, 6, 8, 10, 12, 13])
         )
-        self.panID = config[zigpy.config.CONF_NWK_PAN_ID] or t.PanId(0x1A62)
+        self.panID = config[zigpy.config.CONF_NWK_PAN_ID]
+        if self.panID is None:
+            self.panID = t.PanId(0x1A62)
         self.extendedPanID = config[zigpy.config.CONF_NWK_EXTENDED_PAN_ID] or (
             t.ExtendedPanId([0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD])
         )
-- 
2.43.0


From 6c54b12912cac3f6c3d337f02841483c6737dc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:00 +0000
Subject: [PATCH 16/16] fix: honour the hop limit of group messages

---
 zigpy_cc/zigbee/application.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 1aae9ec..f1395bb 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -196,6 +196,7 @@ class ControllerApplication(zigpy.application.ControllerApplication):
                 0xFF,
                 sequence,
                 data,
+                radius=hops or 30,
                 addr_mode=AddressMode.ADDR_GROUP,
             )
             waiter_id = None
-- 
2.43.0

