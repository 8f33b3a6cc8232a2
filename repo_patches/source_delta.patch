From 2c1f10f3a3564cb6f5eff94b47c7e540514808fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 01/42] fix: report header text that is not UTF-8 as
 DecodeError

---
 anthunder/protocol/_sofa_header.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anthunder/protocol/_sofa_header.py b/anthunder/protocol/_sofa_header.py
index f253a76..a19875c 100644
--- a/anthunder/protocol/_sofa_header.py
+++ b/anthunder/protocol/_sofa_header.py
@@ -80,7 +80,10 @@ def _bytes_to_str(b, coding='utf-8'):
         if n > len(b):  # pragma: no cover
             # incomplete bytes
             raise DecodeError('decoding bytes to str failed, not enough length')
-        ret.append(b[4: n].decode(coding))
+        try:
+            ret.append(b[4: n].decode(coding))
+        except UnicodeDecodeError as e:
+            raise DecodeError('decoding bytes to str failed, {}'.format(e))
         b = b[n:]
 
     return ret
-- 
2.43.0


From db57e141eee29ceece6660b6d90b55eda00a0eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 02/42] fix: number a follows-from span after the children its
 parent already has

---
 mytracer/_rpc_id.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mytracer/_rpc_id.py b/mytracer/_rpc_id.py
index 07a7877..c91b6a6 100644
--- a/mytracer/_rpc_id.py
+++ b/mytracer/_rpc_id.py
@@ -66,12 +66,10 @@ class RpcId(object):
         return obj
 
     def _new_follows_from(self):
-        obj = self.extend_id(self.rpcids[:-1], self.rpcids[-1] + 1)
         if self._parent:
             # a follows up span is a sibling span, means it is a child span of parent
-            self._parent._child_count += 1
-            obj._parent = self._parent
-        return obj
+            return self._parent._new_child_of()
+        return self.extend_id(self.rpcids[:-1], self.rpcids[-1] + 1)
 
     def new_by_reference_type(self, ref_type):
         return getattr(self, '_new_' + ref_type)()
-- 
2.43.0


From daaa84027b462edd2dd4534ece1e452620d969f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:04 +0000
Subject: [PATCH 03/42] fix: set every tag given to start_span

---
 mytracer/tracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mytracer/tracer.py b/mytracer/tracer.py
index 025a8c8..371f61a 100644
--- a/mytracer/tracer.py
+++ b/mytracer/tracer.py
@@ -96,7 +96,7 @@ class MyTracer(opentracing.Tracer):
         span.set_operation_name(operation_name)
 
         _tags = tags or dict()
-        for k, v in _tags:
+        for k, v in _tags.items():
             span.set_tag(k, v)
         if start_time:
             span.set_start_time(start_time)
-- 
2.43.0


From da8d98435c8c90c65e81be6838cfc3972694ef11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:15 +0000
Subject: [PATCH 04/42] fix: recvexactly fails at end of stream instead of
 looping

---
 mysockpool/connection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mysockpool/connection.py b/mysockpool/connection.py
index a7bc2a9..35c4b86 100644
--- a/mysockpool/connection.py
+++ b/mysockpool/connection.py
@@ -71,6 +71,8 @@ class SocketConnection(object):
         while read < size:
             wait_for_read(self.sock)
             bs = self.sock.recv(size - read)
+            if not bs:
+                raise EOFError("Connection closed by peer, {} of {} bytes read".format(read, size))
             buf.write(bs)
             read += len(bs)
         return buf.getvalue()
-- 
2.43.0


From 79707274e88a902dc026534da197a63066fd66e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 05/42] fix: take and give back pool slots atomically when
 opening a connection

---
 mysockpool/connection_pool.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index 44ce63f..0fdac5b 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -83,13 +83,18 @@ class ConnectionPool(object):
                 raise EmptyPoolError(self,
                                      "Pool reached maximum size and no more "
                                      "connections are allowed.")
+            # take the slot under the same lock that checked the limit
+            self.num_connections += 1
 
-        self.num_connections += 1
         log.debug("Starting new connection (%d): %r",
                   self.num_connections, self.pool_key)
 
-        conn = self.ConnectionCls(self.pool_key)
-        return conn
+        try:
+            return self.ConnectionCls(self.pool_key)
+        except BaseException:
+            with self._lock:
+                self.num_connections -= 1
+            raise
 
     def get_conn(self, timeout=None):
         """
-- 
2.43.0


From 010923b8ecca28f9a5812bd6a26dbcf8305a081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:18 +0000
Subject: [PATCH 06/42] fix: do not hand out a pooled connection found dropped

---
 mysockpool/connection_pool.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index 0fdac5b..8e5e1f6 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -129,6 +129,7 @@ class ConnectionPool(object):
         if conn and is_connection_dropped(conn):
             log.debug("Resetting dropped connection: %r", self.pool_key)
             conn.close()
+            conn = None
             with self._lock:
                 self.num_connections -= 1
 
-- 
2.43.0


From c7858ad2f81728803c836e18c887421fa35c0f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:20 +0000
Subject: [PATCH 07/42] fix: closing a closed pool does nothing

---
 mysockpool/connection_pool.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index 8e5e1f6..b7fae2c 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -173,6 +173,8 @@ class ConnectionPool(object):
         """
         # Disable access to the pool
         old_pool, self.pool = self.pool, None
+        if old_pool is None:
+            return  # closed already
 
         try:
             while True:
-- 
2.43.0


From 16bb769834abf63b2d57ce3ac0c06171c03fe048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:22 +0000
Subject: [PATCH 08/42] fix: storing under an existing key makes it the most
 recently used

---
 mysockpool/recently_used_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mysockpool/recently_used_container.py b/mysockpool/recently_used_container.py
index 5d3f69f..851bddb 100644
--- a/mysockpool/recently_used_container.py
+++ b/mysockpool/recently_used_container.py
@@ -59,7 +59,7 @@ class RecentlyUsedContainer(MutableMapping):
         evicted_value = _Null
         with self.lock:
             # Possibly evict the existing value of 'key'
-            evicted_value = self._container.get(key, _Null)
+            evicted_value = self._container.pop(key, _Null)
             self._container[key] = value
 
             # If we didn't evict an existing value, we might have to evict the
-- 
2.43.0


From c05e6a4606da06b74024963a979d4d0eaf77439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 09/42] fix: close a discarded connection before giving up its
 pool slot

---
 mysockpool/connection_pool.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index b7fae2c..f9c8151 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -160,8 +160,12 @@ class ConnectionPool(object):
             log.warning(
                 "Connection pool is full, discarding connection: %s",
                 self.pool_key)
+            # close it before giving up its slot, another thread may open a connection right away
+            if conn:
+                conn.close()
             with self._lock:
                 self.num_connections -= 1
+            return
 
         # Connection never got put back into the pool, close it.
         if conn:
-- 
2.43.0


From 4ba7d7b5ce728dabf8eeb2f103d655e7aeefe3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 10/42] fix: keep the registered interfaces of each listener
 apart

---
 anthunder/listener/aio_listener.py  | 1 +
 anthunder/listener/base_listener.py | 8 +++++---
 anthunder/listener/sock_listener.py | 6 +++---
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 106a43e..ea53ea8 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -52,6 +52,7 @@ class AioThreadpoolRequestHandler(BaseHandler):
     MAX_WORKER = 30
 
     def __init__(self):
+        super(AioThreadpoolRequestHandler, self).__init__()
         self.executor = ThreadPoolExecutor(max_workers=self.MAX_WORKER)
         self.local = threading.local()
         self.lock = RLock()
diff --git a/anthunder/listener/base_listener.py b/anthunder/listener/base_listener.py
index a5e0ac3..79e05d3 100644
--- a/anthunder/listener/base_listener.py
+++ b/anthunder/listener/base_listener.py
@@ -40,9 +40,11 @@ class BaseService(object):
 
 class BaseHandler(object):
     """Handle bolt request"""
-    # stores interface:
-    #   "interface": (function, protobuf_cls)
-    interface_mapping = dict()
+
+    def __init__(self):
+        # stores interface:
+        #   "interface": (function, protobuf_cls)
+        self.interface_mapping = dict()
 
     def register_interface(self, interface, service_cls, *service_cls_args, **service_cls_kwargs):
         raise NotImplementedError()
diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index 5942867..d114d01 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -145,9 +145,9 @@ class SockListener(BaseListener):
 
     def __init__(self, *args, **kwargs):
         super(SockListener, self).__init__(*args, **kwargs)
-        # inject service_handler
-        SockBoltHandler.service_handler = self.handler
-        self.server = ThreadingTCPServer(self.address, SockBoltHandler)
+        # inject service_handler, to a handler class of this listener's own
+        handler_cls = type("SockBoltHandler", (SockBoltHandler,), dict(service_handler=self.handler))
+        self.server = ThreadingTCPServer(self.address, handler_cls)
 
     def run_forever(self):
         self.server.serve_forever()
-- 
2.43.0


From b025a42505881effed2734563ae8231bdc529a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:53 +0000
Subject: [PATCH 11/42] fix: end the blocking handler when the peer closes the
 connection

---
 anthunder/listener/sock_listener.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index d114d01..022297b 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -85,7 +85,10 @@ class SockBoltHandler(StreamRequestHandler):
     def _readexactly(self, bs_cnt):
         bs = b''
         while len(bs) < bs_cnt:
-            bs += self.rfile.read(bs_cnt - len(bs))
+            read = self.rfile.read(bs_cnt - len(bs))
+            if not read:
+                raise EOFError("Connection closed by remote, {} of {} bytes read".format(len(bs), bs_cnt))
+            bs += read
         return bs
 
     def handle(self):
-- 
2.43.0


From a6f228042aeeeda34c0998ef6c479d601002b398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:55 +0000
Subject: [PATCH 12/42] fix: answer a heartbeat whatever its header holds

---
 anthunder/listener/sock_listener.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index 022297b..8ed5b57 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -100,7 +100,6 @@ class SockBoltHandler(StreamRequestHandler):
 
             class_name = self._readexactly(header['class_len'])
             bs = self._readexactly(header['header_len'])
-            sofa_header = SofaHeader.from_bytes(bs)
             body = self._readexactly(header['content_len'])
 
             request_id = header['request_id']
@@ -116,6 +115,7 @@ class SockBoltHandler(StreamRequestHandler):
             if class_name != "com.alipay.sofa.rpc.core.request.SofaRequest".encode():
                 raise ClientError("wrong class_name:[{}]".format(class_name))
 
+            sofa_header = SofaHeader.from_bytes(bs)
             service = sofa_header.get('sofa_head_target_service') or sofa_header.get('service')
             if not service:
                 self.wfile.write(FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
-- 
2.43.0


From 0458b0823cbe6e6d2927dfbccd854d49eb63a5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:56 +0000
Subject: [PATCH 13/42] fix: the blocking server does not answer one-way
 requests

---
 anthunder/listener/sock_listener.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index 8ed5b57..72971f5 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -30,7 +30,7 @@ from anthunder.command.fail_response import FailResponse
 from anthunder.command.heartbeat import HeartbeatResponse
 from anthunder.exceptions import ClientError
 from anthunder.protocol import BoltRequest, SofaHeader
-from anthunder.protocol.constants import CMDCODE, RESPSTATUS
+from anthunder.protocol.constants import PTYPE, CMDCODE, RESPSTATUS
 from anthunder.protocol import BoltResponse
 
 from .base_listener import BaseListener, BaseHandler, NoProcessorError
@@ -118,20 +118,25 @@ class SockBoltHandler(StreamRequestHandler):
             sofa_header = SofaHeader.from_bytes(bs)
             service = sofa_header.get('sofa_head_target_service') or sofa_header.get('service')
             if not service:
-                self.wfile.write(FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
-                self.wfile.flush()
+                if call_type != PTYPE.ONEWAY:
+                    self.wfile.write(FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
+                    self.wfile.flush()
                 logger.error("Missing service name in sofa header [{}]".format(sofa_header))
                 return
             method = sofa_header.get('sofa_head_method_name')
             if not method:
-                self.wfile.write(FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
-                self.wfile.flush()
+                if call_type != PTYPE.ONEWAY:
+                    self.wfile.write(FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
+                    self.wfile.flush()
                 logger.error("Missing method name in sofa header [{}]".format(sofa_header))
                 return
 
             spanctx = tracer.extract(opentracing.Format.TEXT_MAP, sofa_header)
             # call servicehandler
             ret = self.service_handler.handle_request(spanctx, service, method, body)
+            if call_type == PTYPE.ONEWAY:
+                # nobody waits for a response
+                return
             self.wfile.write(BoltResponse.response_to(ret, request_id=request_id).to_stream())
             self.wfile.flush()
 
-- 
2.43.0


From 64f5ff34b22fb838c8f2ee56e290c11ddac36edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 14/42] fix: send the blocking client's request completely or
 raise

---
 anthunder/client/client.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/anthunder/client/client.py b/anthunder/client/client.py
index 46ab811..f9bcf0d 100644
--- a/anthunder/client/client.py
+++ b/anthunder/client/client.py
@@ -69,19 +69,25 @@ class Client(_BaseClient):
         header = SofaHeader.build_header(spanctx, interface, method_name, target_app=target_app, uid=uid,
                                          **sofa_headers_extra)
         p = BoltRequest.new_request(header, content, timeout_ms=timeout_ms or -1, ptype=bolt_ptype)
+        stream = p.to_stream()
         for i in range(3):
             # try three times, to avoid connection failure
             try:
                 conn = self._get_pool(interface).get_conn()
-                conn.send(p.to_stream())
+                sent = 0
+                while sent < len(stream):
+                    # a nonblocking socket may accept a part only
+                    sent += conn.send(stream[sent:])
             except SocketValueError as e:
                 logger.info("Call to interface {} failed, requiest_id: {}, "
                             "retried: {}, reason: {}".format(interface, p.request_id, i, e))
+                if i == 2:
+                    raise
                 continue
             except Exception as e:
                 logger.error("Call to interface {} failed, requiest_id: {}, "
                              "retried: {}, reason: {}".format(interface, p.request_id, i, e))
-                break
+                raise
             else:
                 break
         logger.debug("Called interface {}, request_id: {}".format(interface, p.request_id))
-- 
2.43.0


From a68cc338505c606dec76c9fb9d349b60419df748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:22 +0000
Subject: [PATCH 15/42] fix: end a blocking call at end of stream and at its
 deadline

---
 anthunder/client/client.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/anthunder/client/client.py b/anthunder/client/client.py
index f9bcf0d..0a50ad3 100644
--- a/anthunder/client/client.py
+++ b/anthunder/client/client.py
@@ -126,13 +126,19 @@ class Client(_BaseClient):
             resp_bytes = b''
             header = None
             while len(resp_bytes) < total_size:
-                ready = sel.select(timeout=deadline - time.time())
+                remaining = deadline - time.time()
+                # no more polling after the deadline, even if there is something to read
+                ready = sel.select(timeout=remaining) if remaining > 0 else None
                 if not ready:
                     # timeout
                     c.close()
                     raise TimeoutError('Sync call timeout')
                 for key, event in ready:
-                    resp_bytes += key.fileobj.recv(total_size - len(resp_bytes))
+                    bs = key.fileobj.recv(total_size - len(resp_bytes))
+                    if not bs:
+                        c.close()
+                        raise ConnectionResetError('Connection closed by remote before the response is complete')
+                    resp_bytes += bs
                 if not header and len(resp_bytes) >= total_size:
                     header = pkg.bolt_header_from_stream(resp_bytes)
                     body_size = header['class_len'] + header['header_len'] + header['content_len']
-- 
2.43.0


From f2f9957b9e5ac32163a048b578c37f8fd4873b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:45 +0000
Subject: [PATCH 16/42] fix: a blocking call whose request cannot be sent ends
 at its deadline

---
 anthunder/client/client.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/anthunder/client/client.py b/anthunder/client/client.py
index 0a50ad3..38882bb 100644
--- a/anthunder/client/client.py
+++ b/anthunder/client/client.py
@@ -30,6 +30,7 @@ except ImportError:
     from selectors34 import DefaultSelector, EVENT_READ
 
 from mysockpool import PoolManager
+from mysockpool._wait import wait_for_write
 from mysockpool.exceptions import SocketValueError
 
 from anthunder.exceptions import ServerError
@@ -53,7 +54,7 @@ class Client(_BaseClient):
     """
 
     def _raw_invoke(self, interface, method_name, content, spanctx=None, target_app="", uid="",
-                    timeout_ms=None, bolt_ptype=PTYPE.REQUEST, **sofa_headers_extra):
+                    timeout_ms=None, bolt_ptype=PTYPE.REQUEST, deadline=None, **sofa_headers_extra):
 
         """
         :param content:
@@ -62,6 +63,7 @@ class Client(_BaseClient):
         :param uid:
         :param rpc_trace_context: preserved, rpc_trace_context object, should be expanded as a dict like
                                   {'rpc_trace_context.traceId': 'xxxxx', ...}
+        :param deadline: optional, raise TimeoutError if the request is not sent by this time
         :param kwargs:
         """
         # FIXME spanctx might be None here
@@ -77,6 +79,9 @@ class Client(_BaseClient):
                 sent = 0
                 while sent < len(stream):
                     # a nonblocking socket may accept a part only
+                    if deadline is not None and not wait_for_write(conn, timeout=max(0, deadline - time.time())):
+                        conn.close()
+                        raise TimeoutError('Sync call timeout')
                     sent += conn.send(stream[sent:])
             except SocketValueError as e:
                 logger.info("Call to interface {} failed, requiest_id: {}, "
@@ -118,7 +123,7 @@ class Client(_BaseClient):
         pkg = BoltResponse
         deadline = time.time() + timeout_ms / 1000 + 1
         req_id, c = self._raw_invoke(interface, method_name, content, target_app=target_app, uid=uid,
-                                     spanctx=spanctx, timeout_ms=timeout_ms)
+                                     spanctx=spanctx, timeout_ms=timeout_ms, deadline=deadline)
 
         with DefaultSelector() as sel:
             sel.register(c, EVENT_READ)
-- 
2.43.0


From a759b475e82b94649f4a56022d502b5881721aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:46 +0000
Subject: [PATCH 17/42] fix: accept a fractional timeout_ms

---
 anthunder/client/aio_client.py | 6 ++++--
 anthunder/client/client.py     | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 3fef513..ba30dd2 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -21,6 +21,7 @@
 import asyncio
 import functools
 import logging
+import math
 import threading
 import traceback
 from contextlib import suppress
@@ -80,7 +81,8 @@ class AioClient(_BaseClient):
         """blocking call to interface, returns responsepkg.content(as bytes)"""
         assert isinstance(timeout_ms, (int, float))
         header = SofaHeader.build_header(spanctx, interface, method, **headers)
-        pkg = BoltRequest.new_request(header, content, timeout_ms=timeout_ms)
+        # the wire format takes whole milliseconds only
+        pkg = BoltRequest.new_request(header, content, timeout_ms=math.ceil(timeout_ms))
         fut = asyncio.run_coroutine_threadsafe(self.invoke(pkg), loop=self._loop)
         try:
             ret = fut.result(timeout=timeout_ms / 1000)
@@ -96,7 +98,7 @@ class AioClient(_BaseClient):
         Callback should recv a bytes object as the only argument, which is the response pkg's content
         """
         header = SofaHeader.build_header(spanctx, interface, method, **headers)
-        pkg = BoltRequest.new_request(header, content, timeout_ms=timeout_ms or -1)
+        pkg = BoltRequest.new_request(header, content, timeout_ms=math.ceil(timeout_ms) if timeout_ms else -1)
         fut = asyncio.run_coroutine_threadsafe(self.invoke(pkg), loop=self._loop)
         if callable(callback):
             fut.add_done_callback(self.callback_wrapper(callback, timeout_ms / 1000 if timeout_ms else None))
diff --git a/anthunder/client/client.py b/anthunder/client/client.py
index 38882bb..9e3f5c3 100644
--- a/anthunder/client/client.py
+++ b/anthunder/client/client.py
@@ -22,6 +22,7 @@
         version0 : 2018/5/17 12:22 by jiaqi.hjq  init
 """
 import logging
+import math
 import time
 
 try:
@@ -70,7 +71,9 @@ class Client(_BaseClient):
         logger.debug("Calling interface {}, spanctx: {}".format(interface, spanctx.baggage))
         header = SofaHeader.build_header(spanctx, interface, method_name, target_app=target_app, uid=uid,
                                          **sofa_headers_extra)
-        p = BoltRequest.new_request(header, content, timeout_ms=timeout_ms or -1, ptype=bolt_ptype)
+        # the wire format takes whole milliseconds only
+        timeout_ms = int(math.ceil(timeout_ms)) if timeout_ms else -1
+        p = BoltRequest.new_request(header, content, timeout_ms=timeout_ms, ptype=bolt_ptype)
         stream = p.to_stream()
         for i in range(3):
             # try three times, to avoid connection failure
-- 
2.43.0


From 10901dfbb1a64a84a03ff9c709b1a9b3a29b30e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:14 +0000
Subject: [PATCH 18/42] fix: an undecodable header map does not put the asyncio
 server out of step

---
 anthunder/listener/aio_listener.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index ea53ea8..6318344 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -208,7 +208,7 @@ class AioListener(BaseListener):
                 bs = await reader.readexactly(header['header_len'])
                 logger.debug("received sofa header({})".format(bs))
 
-                sofa_header = SofaHeader.from_bytes(bs)
+                # take the whole request off the stream first, whatever is wrong with it
                 body = await reader.readexactly(header['content_len'])
                 logger.debug("received sofa body({})".format(body))
 
@@ -224,6 +224,8 @@ class AioListener(BaseListener):
                 if class_name != "com.alipay.sofa.rpc.core.request.SofaRequest".encode():
                     raise ClientError("wrong class_name:[{}]".format(class_name))
 
+                sofa_header = SofaHeader.from_bytes(bs)
+
                 logger.debug("dispatching request[{}]".format(header['request_id']))
                 asyncio.ensure_future(self._dispatch(call_type, header['request_id'], sofa_header, body,
                                                      timeout_ms=header['timeout'], writer=writer))
-- 
2.43.0


From 8e92f4df8c74e0cd52c6b6f8fa0d242fe8e2dcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 19/42] fix: do not answer an earlier request with
 CONNECTION_CLOSED at end of stream

---
 anthunder/listener/aio_listener.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 6318344..fa87603 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -186,6 +186,7 @@ class AioListener(BaseListener):
         logger.info("connection created.")
         first_req = True
         while True:
+            header = None  # nothing known of the next request yet
             try:
                 try:
                     fixed_header_bs = await reader.readexactly(BoltRequest.bolt_header_size())
@@ -244,9 +245,10 @@ class AioListener(BaseListener):
             except EOFError as e:
                 logger.warning("Connection closed by remote: {}".format(e))
                 try:
-                    await writer.drain()  # clean the buffer, avoid backpressure
-                    writer.write(FailResponse.response_to(header['request_id'],
-                                                          RESPSTATUS.CONNECTION_CLOSED).to_stream())
+                    if header:
+                        await writer.drain()  # clean the buffer, avoid backpressure
+                        writer.write(FailResponse.response_to(header['request_id'],
+                                                              RESPSTATUS.CONNECTION_CLOSED).to_stream())
                 except:
                     pass
                 try:
-- 
2.43.0


From bfc0c2f200f56366763abbe8e4b4181891a458c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:18 +0000
Subject: [PATCH 20/42] fix: the asyncio server answers empty and unusable
 results too

---
 anthunder/listener/aio_listener.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index fa87603..41df9d2 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -164,14 +164,15 @@ class AioListener(BaseListener):
             await self._write_msg(writer, FailResponse.response_to(request_id, RESPSTATUS.UNKNOWN).to_stream())
             return
 
-        if result:
-            header = dict()
-            tracer.inject(spanctx, opentracing.Format.TEXT_MAP, header)
-            pkg = BoltResponse.response_to(result, request_id=request_id)
-            try:
-                await self._write_msg(writer, pkg.to_stream())
-            except Exception:
-                logger.error(traceback.format_exc())
+        try:
+            msg = BoltResponse.response_to(result, request_id=request_id).to_stream()
+        except ProtocolError:
+            logger.error(traceback.format_exc())
+            msg = FailResponse.response_to(request_id, RESPSTATUS.UNKNOWN).to_stream()
+        try:
+            await self._write_msg(writer, msg)
+        except Exception:
+            logger.error(traceback.format_exc())
 
     async def _write_msg(self, writer, msg):
         await writer.drain()  # clean the buffer, avoid backpressure
-- 
2.43.0


From efa480c88a1f719761f4a862f601d2027656457c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:20 +0000
Subject: [PATCH 21/42] fix: answer a malformed trace context with
 SERVER_EXCEPTION

---
 anthunder/listener/aio_listener.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 41df9d2..89f2411 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -136,9 +136,8 @@ class AioListener(BaseListener):
             logger.error("Missing method name in sofa header [{}]".format(sofa_header))
             return
 
-        spanctx = tracer.extract(opentracing.Format.TEXT_MAP, sofa_header)
-
         try:
+            spanctx = tracer.extract(opentracing.Format.TEXT_MAP, sofa_header)
             future = self.handler.handle_request(spanctx, service, method, body)
         except NoProcessorError:
             await self._write_msg(writer,
-- 
2.43.0


From fc88011813f9cdea3fd014feaf30d99de9c521c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:42 +0000
Subject: [PATCH 22/42] fix: the asyncio server does not answer one-way
 requests

---
 anthunder/listener/aio_listener.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 89f2411..4401987 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -123,16 +123,19 @@ class AioListener(BaseListener):
 
     async def _dispatch(self, call_type, request_id, sofa_header, body, *, timeout_ms, writer):
         """send request to handler"""
+        async def _fail(status):
+            # nobody waits for the response of a one-way request
+            if call_type != PTYPE.ONEWAY:
+                await self._write_msg(writer, FailResponse.response_to(request_id, status).to_stream())
+
         service = sofa_header.get('sofa_head_target_service') or sofa_header.get('service')
         if not service:
-            await self._write_msg(writer,
-                                       FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
+            await _fail(RESPSTATUS.CLIENT_SEND_ERROR)
             logger.error("Missing service name in sofa header [{}]".format(sofa_header))
             return
         method = sofa_header.get('sofa_head_method_name')
         if not method:
-            await self._write_msg(writer,
-                                       FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
+            await _fail(RESPSTATUS.CLIENT_SEND_ERROR)
             logger.error("Missing method name in sofa header [{}]".format(sofa_header))
             return
 
@@ -140,12 +143,10 @@ class AioListener(BaseListener):
             spanctx = tracer.extract(opentracing.Format.TEXT_MAP, sofa_header)
             future = self.handler.handle_request(spanctx, service, method, body)
         except NoProcessorError:
-            await self._write_msg(writer,
-                                       FailResponse.response_to(request_id, RESPSTATUS.NO_PROCESSOR).to_stream())
+            await _fail(RESPSTATUS.NO_PROCESSOR)
             return
         except Exception:
-            await self._write_msg(writer,
-                                       FailResponse.response_to(request_id, RESPSTATUS.SERVER_EXCEPTION).to_stream())
+            await _fail(RESPSTATUS.SERVER_EXCEPTION)
             return
         if PTYPE.ONEWAY == call_type:
             # Just return future
-- 
2.43.0


From 92d2e3d1fad62e8648d255066aad92dd1816091a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:44 +0000
Subject: [PATCH 23/42] fix: a service constructor's AttributeError is no
 missing method

---
 anthunder/listener/aio_listener.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 4401987..20f3617 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -65,8 +65,8 @@ class AioThreadpoolRequestHandler(BaseHandler):
         except KeyError as e:
             logger.error("Service not found in interface registry: [{}]".format(service))
             raise NoProcessorError("Service not found in interface registry: [{}]".format(service)) from e
+        svc_obj = ServiceCls(spanctx)
         try:
-            svc_obj = ServiceCls(spanctx)
             func = getattr(svc_obj, method)
         except AttributeError as e:
             logger.error("No such method[{}]".format(method))
-- 
2.43.0


From db6dcd1e6f0a9f00478a25f1870ca4dd1bd2409e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:46 +0000
Subject: [PATCH 24/42] fix: sys.exit() in a service does not stop the asyncio
 server

---
 anthunder/listener/aio_listener.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 20f3617..cde0852 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -159,7 +159,8 @@ class AioListener(BaseListener):
             logger.error("Task run cancelled/timeout in {}ms, service:[{}]: error:[{}]".format(timeout_ms, service, e))
             await self._write_msg(writer, FailResponse.response_to(request_id, RESPSTATUS.TIMEOUT).to_stream())
             return
-        except Exception:
+        except (Exception, SystemExit, KeyboardInterrupt):
+            # sys.exit() in a service ends the request, not the server
             logger.error(traceback.format_exc())
             await self._write_msg(writer, FailResponse.response_to(request_id, RESPSTATUS.UNKNOWN).to_stream())
             return
-- 
2.43.0


From d82cda827f216694c24b91edfa6997e0ad3b3016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 25/42] fix: a service raising StopIteration is answered by the
 asyncio server

---
 anthunder/listener/aio_listener.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index cde0852..b5ae931 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -72,10 +72,18 @@ class AioThreadpoolRequestHandler(BaseHandler):
             logger.error("No such method[{}]".format(method))
             raise NoProcessorError("No such method[{}]".format(method)) from e
 
-        future = self.executor.submit(func, body)
+        future = self.executor.submit(self._run, func, body)
         logger.info("biz request submitted to function({})".format(func))
         return future
 
+    @staticmethod
+    def _run(func, body):
+        try:
+            return func(body)
+        except StopIteration as e:
+            # asyncio's futures refuse a StopIteration: the request would never be answered
+            raise RuntimeError("service raised StopIteration") from e
+
     def register_interface(self, interface, service_cls, *service_cls_args, **service_cls_kwargs):
         """
         register interface: service_cls relationship
-- 
2.43.0


From 59b4460428eda119427a59f0c9980c64478b46f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 26/42] fix: one-way calls of the asyncio client are sent as
 one-way requests

---
 anthunder/client/aio_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index ba30dd2..156fcf1 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -74,7 +74,7 @@ class AioClient(_BaseClient):
 
     def invoke_oneway(self, interface, method, content, *, spanctx, **headers):
         header = SofaHeader.build_header(spanctx, interface, method, **headers)
-        pkg = BoltRequest.new_request(header, content, timeout_ms=-1)
+        pkg = BoltRequest.new_request(header, content, ptype=PTYPE.ONEWAY, timeout_ms=-1)
         asyncio.run_coroutine_threadsafe(self.invoke(pkg), loop=self._loop)
 
     def invoke_sync(self, interface, method, content, *, spanctx, timeout_ms, **headers):
-- 
2.43.0


From 0c64260d4a3e0d06e21f6a8172a406142739d664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 27/42] fix: a response may arrive before the asyncio client
 finished sending

---
 anthunder/client/aio_client.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 156fcf1..72141d1 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -194,6 +194,8 @@ class AioClient(_BaseClient):
                 writer.write(request.to_stream())
                 await writer.drain()
             except Exception as e:
+                if event.is_set():
+                    return  # answered already
                 logger.error("Request sent to {} failed: {}, may try again.".format(address, e))
                 readtask.cancel()
                 self.connection_mapping.pop(address)
@@ -201,7 +203,7 @@ class AioClient(_BaseClient):
                 await _send(retry - 1)
 
         # generate event object first, ensure every successfully sent request has a event
-        self.request_mapping[request.request_id] = asyncio.Event()
+        event = self.request_mapping[request.request_id] = asyncio.Event()
         try:
             await _send()
         except PyboltError:
@@ -217,7 +219,8 @@ class AioClient(_BaseClient):
             self.request_mapping.pop(request.request_id)
             return
 
-        return self.request_mapping[request.request_id]
+        # the response may be there already, and its event no longer registered
+        return event
 
     async def _recv_response(self, reader, writer):
         """
-- 
2.43.0


From a2b8e156077bfa31915450e09211a2e2ebdc3629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 28/42] fix: error responses reach the caller of the asyncio
 client

---
 anthunder/client/aio_client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 72141d1..a660b64 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -174,7 +174,10 @@ class AioClient(_BaseClient):
             logger.debug("no related event, should be a async/oneway call, return now")
             return
         await event.wait()
-        return self.response_mapping.pop(request.request_id)
+        resp = self.response_mapping.pop(request.request_id)
+        if isinstance(resp, PyboltError):
+            raise resp
+        return resp
 
     async def _send_request(self, request: BoltRequest, *, address):
         """
@@ -250,6 +253,8 @@ class AioClient(_BaseClient):
 
             except PyboltError as e:
                 logger.error(e)
+                if pkg is not None and pkg.request_id in self.request_mapping:
+                    self.response_mapping[pkg.request_id] = e
             except (asyncio.CancelledError, EOFError, ConnectionResetError) as e:
                 logger.error(e)
                 writer.close()
-- 
2.43.0


From d7b75549382cd56579ab868757bf9ec756f960a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 29/42] fix: heartbeat responses reach the heartbeat call

---
 anthunder/client/aio_client.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index a660b64..78c4bd8 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -177,6 +177,8 @@ class AioClient(_BaseClient):
         resp = self.response_mapping.pop(request.request_id)
         if isinstance(resp, PyboltError):
             raise resp
+        if (resp.cmdcode == CMDCODE.HEARTBEAT) != (request.cmdcode == CMDCODE.HEARTBEAT):
+            raise ServerError("wrong cmdcode:[{}]".format(resp.cmdcode))
         return resp
 
     async def _send_request(self, request: BoltRequest, *, address):
@@ -241,6 +243,9 @@ class AioClient(_BaseClient):
                 if pkg.class_name != BoltResponse.class_name:
                     raise ServerError("wrong class_name:[{}]".format(pkg.class_name))
                 if pkg.cmdcode == CMDCODE.HEARTBEAT:
+                    # its status is for the heartbeat call to judge
+                    if pkg.request_id in self.request_mapping:
+                        self.response_mapping[pkg.request_id] = pkg
                     continue
                 elif pkg.cmdcode == CMDCODE.REQUEST:
                     # raise error, the connection will be dropped
-- 
2.43.0


From 18c4672ebd1397ba7cec9ed25ef97c0e7e3ba51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 30/42] fix: a request that cannot be encoded does not break
 the connection

---
 anthunder/client/aio_client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 78c4bd8..45fbed7 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -190,13 +190,16 @@ class AioClient(_BaseClient):
         """
         assert isinstance(request, BoltRequest)
 
+        # a request that cannot be encoded is no fault of the connection
+        data = request.to_stream()
+
         async def _send(retry=3):
             if retry <= 0:
                 raise PyboltError("send request failed.")
             readtask, writer = await self._get_connection(address)
             try:
                 await writer.drain()  # avoid back pressure
-                writer.write(request.to_stream())
+                writer.write(data)
                 await writer.drain()
             except Exception as e:
                 if event.is_set():
-- 
2.43.0


From 78d3b2816b187016140949fab2cbf80cfd764d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 31/42] fix: a request that could not be sent fails its call

---
 anthunder/client/aio_client.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 45fbed7..5651a4b 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -214,14 +214,11 @@ class AioClient(_BaseClient):
         event = self.request_mapping[request.request_id] = asyncio.Event()
         try:
             await _send()
-        except PyboltError:
-            logger.error("failed to send request {}".format(request.request_id))
-            self.request_mapping.pop(request.request_id)
-            return
         except Exception:
+            logger.error("failed to send request {}".format(request.request_id))
             logger.error(traceback.format_exc())
-            self.request_mapping.pop(request.request_id)
-            return
+            self.request_mapping.pop(request.request_id, None)
+            raise
 
         if request.ptype == PTYPE.ONEWAY:
             self.request_mapping.pop(request.request_id)
-- 
2.43.0


From 5e35be97715e07f229e88a663700b5a047364302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 32/42] fix: failed sends do not drop a connection that
 replaced the failed one

---
 anthunder/client/aio_client.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 5651a4b..68927bf 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -55,8 +55,8 @@ class AioClient(_BaseClient):
         self.request_mapping = dict()  # request_id: event
         self.response_mapping = dict()  # request_id: response_pkg
         self.connection_mapping = dict()  # address: (reader_coro, writer)
-        self.loop_thread = self._init()
         self._pending_dial = dict()  # address: (asyncio.Lock)
+        self.loop_thread = self._init()
 
     def _init(self):
         def _t():
@@ -206,8 +206,9 @@ class AioClient(_BaseClient):
                     return  # answered already
                 logger.error("Request sent to {} failed: {}, may try again.".format(address, e))
                 readtask.cancel()
-                self.connection_mapping.pop(address)
-                self._pending_dial.pop(address)
+                # another call may have given up this connection and dialled again; whoever waits to dial keeps the lock
+                if self.connection_mapping.get(address) == (readtask, writer):
+                    self.connection_mapping.pop(address)
                 await _send(retry - 1)
 
         # generate event object first, ensure every successfully sent request has a event
-- 
2.43.0


From efdf0ac0f55429e73122560123c44892b6375233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 33/42] fix: an asyncio client call leaves nothing behind when
 it ends

---
 anthunder/client/aio_client.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 68927bf..f545eab 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -87,6 +87,7 @@ class AioClient(_BaseClient):
         try:
             ret = fut.result(timeout=timeout_ms / 1000)
         except (TimeoutError, CancelledError) as e:
+            fut.cancel()  # nobody waits for the response any more
             logger.error("call to [{}:{}] timeout/cancelled. {}".format(interface, method, e))
             raise
         return ret.content
@@ -169,12 +170,17 @@ class AioClient(_BaseClient):
         address = address or self._get_address(request.header['service'])
         logger.debug("invoke to address: {}".format(address))
 
-        event = await self._send_request(request, address=address)
-        if event is None:
-            logger.debug("no related event, should be a async/oneway call, return now")
-            return
-        await event.wait()
-        resp = self.response_mapping.pop(request.request_id)
+        try:
+            event = await self._send_request(request, address=address)
+            if event is None:
+                logger.debug("no related event, should be a async/oneway call, return now")
+                return
+            await event.wait()
+            resp = self.response_mapping.pop(request.request_id)
+        finally:
+            # sent or not, answered, cancelled or failed
+            self.request_mapping.pop(request.request_id, None)
+            self.response_mapping.pop(request.request_id, None)
         if isinstance(resp, PyboltError):
             raise resp
         if (resp.cmdcode == CMDCODE.HEARTBEAT) != (request.cmdcode == CMDCODE.HEARTBEAT):
@@ -218,11 +224,9 @@ class AioClient(_BaseClient):
         except Exception:
             logger.error("failed to send request {}".format(request.request_id))
             logger.error(traceback.format_exc())
-            self.request_mapping.pop(request.request_id, None)
             raise
 
         if request.ptype == PTYPE.ONEWAY:
-            self.request_mapping.pop(request.request_id)
             return
 
         # the response may be there already, and its event no longer registered
-- 
2.43.0


From 9b125ad336cab0ee66a888480f6531bd4d66beac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 34/42] fix: no call waits for a response on a lost connection

---
 anthunder/client/aio_client.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index f545eab..ab8f2bc 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -171,11 +171,17 @@ class AioClient(_BaseClient):
         logger.debug("invoke to address: {}".format(address))
 
         try:
-            event = await self._send_request(request, address=address)
+            event, readtask = await self._send_request(request, address=address)
             if event is None:
                 logger.debug("no related event, should be a async/oneway call, return now")
                 return
-            await event.wait()
+            waiter = asyncio.ensure_future(event.wait())
+            try:
+                await asyncio.wait((waiter, readtask), return_when=asyncio.FIRST_COMPLETED)
+            finally:
+                waiter.cancel()
+            if not event.is_set():
+                raise PyboltError("connection lost before the response to request {}".format(request.request_id))
             resp = self.response_mapping.pop(request.request_id)
         finally:
             # sent or not, answered, cancelled or failed
@@ -205,32 +211,35 @@ class AioClient(_BaseClient):
             readtask, writer = await self._get_connection(address)
             try:
                 await writer.drain()  # avoid back pressure
+                if readtask.done():
+                    raise ConnectionResetError("connection lost, nobody reads its responses")
                 writer.write(data)
                 await writer.drain()
             except Exception as e:
                 if event.is_set():
-                    return  # answered already
+                    return readtask  # answered already
                 logger.error("Request sent to {} failed: {}, may try again.".format(address, e))
                 readtask.cancel()
                 # another call may have given up this connection and dialled again; whoever waits to dial keeps the lock
                 if self.connection_mapping.get(address) == (readtask, writer):
                     self.connection_mapping.pop(address)
-                await _send(retry - 1)
+                return await _send(retry - 1)
+            return readtask
 
         # generate event object first, ensure every successfully sent request has a event
         event = self.request_mapping[request.request_id] = asyncio.Event()
         try:
-            await _send()
+            readtask = await _send()
         except Exception:
             logger.error("failed to send request {}".format(request.request_id))
             logger.error(traceback.format_exc())
             raise
 
         if request.ptype == PTYPE.ONEWAY:
-            return
+            return None, readtask
 
         # the response may be there already, and its event no longer registered
-        return event
+        return event, readtask
 
     async def _recv_response(self, reader, writer):
         """
-- 
2.43.0


From 73ebcedd2e35455143662048f0f5427af5b33e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 35/42] fix: client heartbeats go on whatever became of the
 last one

---
 anthunder/client/aio_client.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index ab8f2bc..86b4127 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -125,9 +125,10 @@ class AioClient(_BaseClient):
         """Invoke heartbeat periodly"""
         while True:
             await asyncio.sleep(interval)
-            await self.invoke_heartbeat(address)
+            # not awaited: the next one is due in an interval, answered or not
+            asyncio.ensure_future(self.invoke_heartbeat(address, timeout=interval))
 
-    async def invoke_heartbeat(self, address):
+    async def invoke_heartbeat(self, address, timeout=None):
         """
         Send heartbeat to server
 
@@ -135,7 +136,11 @@ class AioClient(_BaseClient):
         TODO: to break the connection if server response wrongly
         """
         pkg = HeartbeatRequest.new_request()
-        resp = await self.invoke(pkg, address=address)
+        try:
+            resp = await asyncio.wait_for(self.invoke(pkg, address=address), timeout)
+        except Exception as e:
+            logger.error("heartbeat request({}) failed: {!r}".format(pkg.request_id, e))
+            return False
         if resp.request_id != pkg.request_id:
             logger.error("heartbeat response request_id({}) mismatch with request({}).".format(resp.request_id,
                                                                                                pkg.request_id))
-- 
2.43.0


From e3a31b5ce10196c527bbef7cef71bfb68382ef2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 36/42] fix: of several threads mapping one interface only one
 succeeds

---
 anthunder/helpers/immutable_dict.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/anthunder/helpers/immutable_dict.py b/anthunder/helpers/immutable_dict.py
index de68451..fbac486 100644
--- a/anthunder/helpers/immutable_dict.py
+++ b/anthunder/helpers/immutable_dict.py
@@ -18,12 +18,17 @@
    Author : jiaqi.hjq
 """
 import logging
+from threading import RLock
 
 logger = logging.getLogger(__name__)
 
 
 class ImmutableValueDict(dict):
+    _lock = RLock()
+
     def __setitem__(self, key, value):
-        if key in self:
-            raise KeyError("Key {} exists, cannot be set to value {}".format(key, value))
-        super(ImmutableValueDict, self).__setitem__(key, value)
+        # of several threads setting the same key only one may succeed
+        with self._lock:
+            if key in self:
+                raise KeyError("Key {} exists, cannot be set to value {}".format(key, value))
+            super(ImmutableValueDict, self).__setitem__(key, value)
-- 
2.43.0


From 0b38060fd6656fe9c4451a4dd75ce78ef5f7726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:56 +0000
Subject: [PATCH 37/42] fix: spans that several threads derive from one span
 get distinct rpc ids

---
 mytracer/_rpc_id.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mytracer/_rpc_id.py b/mytracer/_rpc_id.py
index c91b6a6..af6775d 100644
--- a/mytracer/_rpc_id.py
+++ b/mytracer/_rpc_id.py
@@ -21,6 +21,7 @@
    Change Activity:
         version0 : 2018/5/28 14:59 by jiaqi.hjq  init
 """
+import itertools
 
 
 class RpcId(object):
@@ -44,7 +45,7 @@ class RpcId(object):
             if not isinstance(self.rpcids[-1], int):
                 raise TypeError("Illigal span id, last segment must be int, not '{}'.".format(self.rpcids[-1]))
 
-        self._child_count = 0
+        self._child_numbers = itertools.count(1)
         self._parent = None
 
     def __str__(self):
@@ -60,8 +61,8 @@ class RpcId(object):
         return cls(*new_ids)
 
     def _new_child_of(self):
-        self._child_count += 1
-        obj = self.extend_id(self.rpcids, self._child_count)
+        # next() is atomic, several threads may derive children
+        obj = self.extend_id(self.rpcids, next(self._child_numbers))
         obj._parent = self  # attach a link to parent rpcId
         return obj
 
-- 
2.43.0


From a3696eba9779169721cf6b9b7d96945a23cefa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:27 +0000
Subject: [PATCH 38/42] fix: shutting the blocking server down closes its
 listening socket

---
 anthunder/listener/sock_listener.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index 72971f5..2662826 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -162,3 +162,5 @@ class SockListener(BaseListener):
 
     def shutdown(self):
         self.server.shutdown()
+        # not server_close(), which waits for the connections being served
+        self.server.socket.close()
-- 
2.43.0


From 3e612e66583cdce03fd0408548a6c54819cc2b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:50 +0000
Subject: [PATCH 39/42] fix: a trace context item named like an attribute
 survives the request header

---
 anthunder/protocol/_rpc_trace_context.py | 6 +++---
 anthunder/protocol/_sofa_header.py       | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/anthunder/protocol/_rpc_trace_context.py b/anthunder/protocol/_rpc_trace_context.py
index 046514f..e97d130 100644
--- a/anthunder/protocol/_rpc_trace_context.py
+++ b/anthunder/protocol/_rpc_trace_context.py
@@ -30,8 +30,8 @@ class RpcTraceContext(object):
     prefix = "rpc_trace_context."
 
     def __init__(self, **kwargs):
-        for k, v in kwargs.items():
-            setattr(self, k, v)
+        # not setattr(): an item may be named like an attribute every object has
+        self.__dict__.update(kwargs)
 
     def expand(self):
-        return {self.prefix + k: str(v) for k, v in self.__dict__.items()}
+        return {type(self).prefix + k: str(v) for k, v in self.__dict__.items()}
diff --git a/anthunder/protocol/_sofa_header.py b/anthunder/protocol/_sofa_header.py
index a19875c..4c640e0 100644
--- a/anthunder/protocol/_sofa_header.py
+++ b/anthunder/protocol/_sofa_header.py
@@ -128,7 +128,8 @@ class SofaHeader(dict):
         :param sofa_headers_extra:
         :return:
         """
-        rpc_trace_context_expand = RpcTraceContext(**spanctx.baggage).expand()
+        # called on the class: an item may be named "expand"
+        rpc_trace_context_expand = RpcTraceContext.expand(RpcTraceContext(**spanctx.baggage))
 
         kwargs = dict()
         kwargs.update(**sofa_headers_extra)
-- 
2.43.0


From f2dc2d621b32d69a54d226100fb14b5544a66e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:40 +0000
Subject: [PATCH 40/42] fix: header entries that cannot be encoded are refused
 with EncodeError

---
 anthunder/protocol/_sofa_header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anthunder/protocol/_sofa_header.py b/anthunder/protocol/_sofa_header.py
index 4c640e0..e2dbf21 100644
--- a/anthunder/protocol/_sofa_header.py
+++ b/anthunder/protocol/_sofa_header.py
@@ -109,7 +109,7 @@ class SofaHeader(dict):
     def to_bytes(self):
         try:
             return b''.join(_str_to_bytes_with_len(k) + _str_to_bytes_with_len(v) for k, v in self.items())
-        except AttributeError as e:  # pragma: no cover
+        except (AttributeError, AssertionError, UnicodeEncodeError, struct.error) as e:  # pragma: no cover
             raise EncodeError(e)
 
     def __len__(self):
-- 
2.43.0


From 542460f8bc94d4866d901ae4a1d3cf4629e11db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:42 +0000
Subject: [PATCH 41/42] fix: a start time of zero is kept

---
 mytracer/tracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mytracer/tracer.py b/mytracer/tracer.py
index 371f61a..94a655b 100644
--- a/mytracer/tracer.py
+++ b/mytracer/tracer.py
@@ -98,7 +98,7 @@ class MyTracer(opentracing.Tracer):
         _tags = tags or dict()
         for k, v in _tags.items():
             span.set_tag(k, v)
-        if start_time:
+        if start_time is not None:
             span.set_start_time(start_time)
 
         return span
-- 
2.43.0


From 3a79fb71ef52a3ac102d8556a714901d0e1e00f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:44 +0000
Subject: [PATCH 42/42] fix: a given start time is kept by the with statement

---
 mytracer/span.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mytracer/span.py b/mytracer/span.py
index cbc036c..0d7a082 100644
--- a/mytracer/span.py
+++ b/mytracer/span.py
@@ -31,6 +31,7 @@ class MySpan(object):
         self._tags = dict()
         self._logs = dict()
         self._start_time = time.time()
+        self._start_time_given = False
         self._finish_time = None
         self._operation_name = ""
 
@@ -56,12 +57,14 @@ class MySpan(object):
 
     def set_start_time(self, starttime):
         self._start_time = starttime
+        self._start_time_given = True
 
     def finish(self):
         self._finish_time = time.time()
 
     def __enter__(self):
-        self._start_time = time.time()
+        if not self._start_time_given:
+            self._start_time = time.time()
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-- 
2.43.0

