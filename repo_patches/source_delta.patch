From f1d2cd5a898e437e13acc9aec52700f4f2557ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:30 +0000
Subject: [PATCH 01/29] fix: raise DecodeError for truncated or malformed
 bencode

---
 dataplicity/m2m/bencode.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/dataplicity/m2m/bencode.py b/dataplicity/m2m/bencode.py
index 539b031..337f0cf 100644
--- a/dataplicity/m2m/bencode.py
+++ b/dataplicity/m2m/bencode.py
@@ -99,7 +99,11 @@ def encode(obj):
 def decode(data):
     """Decode Bencode, return an object."""
     assert isinstance(data, bytes), "decode takes bytes"
-    return _decode(io.BytesIO(data).read)
+    try:
+        return _decode(io.BytesIO(data).read)
+    except (ValueError, TypeError, OverflowError, RuntimeError) as error:
+        # Bad number, unusable dictionary key, or nested too deeply
+        raise DecodeError("invalid input; {}".format(error))
 
 
 def _decode(read):
@@ -136,6 +140,8 @@ def _decode(read):
             if k is None:
                 break
             v = _decode(read)
+            if v is None:
+                raise DecodeError("missing value in dict")
             kv.append((k, v))
         return dict(kv)
     else:
@@ -144,6 +150,11 @@ def _decode(read):
             c = read(1)
             if c == b":":
                 break
+            if not c:
+                raise DecodeError("unexpected end of input in size")
             size_bytes += c
         size = int(size_bytes)
-        return read(size)
+        data = read(size)
+        if len(data) != size:
+            raise DecodeError("unexpected end of input in string")
+        return data
-- 
2.43.0


From 8df20a34292dc0b31adcde808052f39acd8590f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:30 +0000
Subject: [PATCH 02/29] fix: stop command service when stdout hangs up

---
 dataplicity/m2m/commandservice.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dataplicity/m2m/commandservice.py b/dataplicity/m2m/commandservice.py
index b25badd..1004f01 100644
--- a/dataplicity/m2m/commandservice.py
+++ b/dataplicity/m2m/commandservice.py
@@ -101,8 +101,13 @@ class CommandService(threading.Thread):
                         else:
                             chunk = os.read(stderr_fh, CHUNK_SIZE)
                             log.debug("%r [stderr] %r", self, chunk)
-                    if event_mask & error_events:
-                        break
+                    elif event_mask & error_events:
+                        # No more data, and poll would return this event forever
+                        poll.unregister(_file_descriptor)
+                        if _file_descriptor == stdout_fh:
+                            more_data = False
+                            log.debug("%r hang up", self)
+                            break
                 if channel.is_closed:
                     log.debug("%r channel closed", self)
                     break
-- 
2.43.0


From 8ba23ca97428b1e1e2fd9728333d70f220d5bb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:30 +0000
Subject: [PATCH 03/29] fix: close channel when a command or file service fails
 to begin

---
 dataplicity/m2m/commandservice.py | 1 +
 dataplicity/m2m/fileservice.py    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dataplicity/m2m/commandservice.py b/dataplicity/m2m/commandservice.py
index 1004f01..792d902 100644
--- a/dataplicity/m2m/commandservice.py
+++ b/dataplicity/m2m/commandservice.py
@@ -60,6 +60,7 @@ class CommandService(threading.Thread):
             except Exception:
                 log.exception("error running %r", self)
                 self.send_error(channel, "error", "error running command")
+                channel.close()
         finally:
             self.limiter.decrement()
 
diff --git a/dataplicity/m2m/fileservice.py b/dataplicity/m2m/fileservice.py
index ba07f65..0650497 100644
--- a/dataplicity/m2m/fileservice.py
+++ b/dataplicity/m2m/fileservice.py
@@ -70,6 +70,7 @@ class FileService(threading.Thread):
             except Exception:
                 log.exception("error running %r", self)
                 self.send_error(channel, "error", "internal error, see agent logs")
+                channel.close()
         finally:
             self.limiter.decrement()
 
-- 
2.43.0


From d4b9b2ea6d617b6296dc4fabf706c2b5f8369c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:30 +0000
Subject: [PATCH 04/29] fix: end a forwarded connection with its socket, and
 only that connection

---
 dataplicity/portforward.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dataplicity/portforward.py b/dataplicity/portforward.py
index fbb6996..a1ed27a 100644
--- a/dataplicity/portforward.py
+++ b/dataplicity/portforward.py
@@ -71,9 +71,10 @@ class Connection(threading.Thread):
 
             poll.register(self.socket.fileno(), events)
 
+            reading = True
             log.debug("entered recv loop")
             # Read all the data we can and write it to the channel
-            while not self.close_event.is_set():
+            while reading and not self.close_event.is_set():
                 # Block for a period of time until the socket becomes readable,
                 # or there is an error
                 try:
@@ -91,6 +92,7 @@ class Connection(threading.Thread):
                             data = self.socket.recv(CHUNK_SIZE)
                         except Exception:
                             log.exception("error in recv")
+                            reading = False
                             break
                         else:
                             if data:
@@ -98,11 +100,12 @@ class Connection(threading.Thread):
                                 bytes_written += len(data)
                             else:
                                 # No data means the socket has been closed
+                                reading = False
                                 break
-                    if event_mask & error_events:
+                    elif event_mask & error_events:
                         # Socket has been closed in another thread, possibly due to
                         # m2m channel closing
-                        self.close_event.set()
+                        reading = False
         finally:
 
             speed = bytes_written / 1024.0 / (time() - self._start_time)
-- 
2.43.0


From 647b777dac1a7e3ff29c8f9248a9e0f4fbd45a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:30 +0000
Subject: [PATCH 05/29] fix: end a forwarded connection when data could not be
 written to it

---
 dataplicity/portforward.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataplicity/portforward.py b/dataplicity/portforward.py
index a1ed27a..c2cd82a 100644
--- a/dataplicity/portforward.py
+++ b/dataplicity/portforward.py
@@ -196,6 +196,11 @@ class Connection(threading.Thread):
                 try:
                     for chunk in self.read_buffer:
                         self.socket.sendall(chunk)
+                except Exception:
+                    # Data was lost, so nothing may follow it
+                    self._shutdown_write()
+                    self._shutdown_read()
+                    raise
                 finally:
                     del self.read_buffer[:]
 
-- 
2.43.0


From f0b57b4783fea03dc92329521c647c12ac1f8efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:30 +0000
Subject: [PATCH 06/29] fix: refuse remote file ids and paths that lead outside
 of their folder

---
 dataplicity/remote_directory.py | 36 +++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index 964e862..6deeada 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -58,6 +58,19 @@ def validate_path(path):
     return ".." not in path.split(os.sep)
 
 
+def validate_id(id):
+    # type: (Text) -> bool
+    """Check an ID names a file directly inside a folder.
+
+    Args:
+        id (Text): An upload or download ID.
+
+    Returns:
+        bool: True if the ID is valid, otherwise False
+    """
+    return id not in ("", ".", "..") and os.sep not in id
+
+
 class RemoteDirectory(object):
     """Manages remote directory."""
 
@@ -90,6 +103,8 @@ class RemoteDirectory(object):
         Returns:
             str: A path to the snapshot file.
         """
+        if not validate_id(upload_id):
+            raise IllegalPath("Upload ID %r is illegal" % upload_id)
         try:
             temp_path = self.temp_path
             dir_path = os.path.join(temp_path, "dataplicity_remote")
@@ -112,6 +127,8 @@ class RemoteDirectory(object):
         Returns:
             [type]: [description]
         """
+        if not validate_id(id):
+            raise IllegalPath("Download ID %r is illegal" % id)
 
         temp_path = self.temp_path
         dir_path = os.path.join(temp_path, "dataplicity_remote_downloads")
@@ -129,6 +146,21 @@ class RemoteDirectory(object):
 
         return device_path
 
+    def check_download(self, device_path):
+        # type: (Text) -> None
+        """Check a path is one that could have been returned from `add_download`.
+
+        Args:
+            device_path (str): Path to partial download.
+
+        Raises:
+            IllegalPath: If the path is not in the downloads folder.
+        """
+        dir_path = os.path.join(self.temp_path, "dataplicity_remote_downloads")
+        dirname, id = os.path.split(device_path)
+        if dirname != dir_path or not validate_id(id):
+            raise IllegalPath("Path %s is illegal" % device_path)
+
     def add_upload(self, path, upload_id):
         # type: (Text, Text) -> int
         """Add a new upload.
@@ -309,6 +341,8 @@ class RemoteDirectory(object):
             # If we haven't set a device_path allocate a temp location
             if not write_device_path:
                 write_device_path = self.add_download(id.decode("utf-8"))
+            else:
+                self.check_download(write_device_path)
         except Exception as error:
             log.exception("error adding download")
             # Couldn't create temporary location, tell server
@@ -383,6 +417,8 @@ class RemoteDirectory(object):
         """Copy a download in to the remote directory"""
 
         destination_path = os.path.join(self.path, path.decode("utf-8").lstrip("/"))
+        if not validate_path(destination_path):
+            raise IllegalPath("Path %s is illegal" % destination_path)
         dirname, filename = os.path.split(destination_path)
         if not os.path.isdir(dirname):
             dirname = self.path
-- 
2.43.0


From 3d888f46fe74b1a8385779f795367bfe48e9e8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:30 +0000
Subject: [PATCH 07/29] fix: answer a remote file write with an undecodable
 device path

---
 dataplicity/remote_directory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index 6deeada..5a700a3 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -336,8 +336,8 @@ class RemoteDirectory(object):
     def on_write_remote_file(self, client, id, path, device_path, offset, data, final):
         # type: (WSClient, bytes, bytes, bytes, int, bytes, int) -> None
         """Write data from server to temporary file."""
-        write_device_path = device_path.decode("utf-8")
         try:
+            write_device_path = device_path.decode("utf-8")
             # If we haven't set a device_path allocate a temp location
             if not write_device_path:
                 write_device_path = self.add_download(id.decode("utf-8"))
-- 
2.43.0


From 9a8bec1e4b98821d286ab3801ef45b6e631b0477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:30 +0000
Subject: [PATCH 08/29] fix: store an upload in the remote directory if its
 folder doesn't exist

---
 dataplicity/remote_directory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index 5a700a3..7a56d17 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -422,6 +422,7 @@ class RemoteDirectory(object):
         dirname, filename = os.path.split(destination_path)
         if not os.path.isdir(dirname):
             dirname = self.path
+            destination_path = os.path.join(dirname, filename)
 
         basename, ext = os.path.splitext(filename)
 
-- 
2.43.0


From c52bdb167927ade875e35b977741e64ad08ca925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:30 +0000
Subject: [PATCH 09/29] fix: publish directory scan in one step

---
 dataplicity/directory_scanner.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataplicity/directory_scanner.py b/dataplicity/directory_scanner.py
index 04282b9..82c25b5 100644
--- a/dataplicity/directory_scanner.py
+++ b/dataplicity/directory_scanner.py
@@ -2,6 +2,7 @@ from __future__ import print_function, unicode_literals
 
 import json
 import logging
+import os
 import os.path
 import tempfile
 from threading import Lock, Thread
@@ -79,5 +80,8 @@ class DirectoryScanner(object):
         file_path = os.path.join(
             tempfile.gettempdir(), "__dataplicity_remote_directory_scan___.json"
         )
-        with open(file_path, "wb") as scan_file:
+        # Replace the file in one step, so that a partial scan is never visible
+        partial_path = file_path + ".partial"
+        with open(partial_path, "wb") as scan_file:
             scan_file.write(scan_json)
+        os.rename(partial_path, file_path)
-- 
2.43.0


From 25bdacc04cb498c17e7b266062cac5977a7275c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:30 +0000
Subject: [PATCH 10/29] fix: report a failed directory scan to the server

---
 dataplicity/directory_scanner.py | 22 ++++++++++++++++++----
 dataplicity/m2m/wsclient.py      |  7 +++++--
 dataplicity/remote_directory.py  |  6 +++---
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/dataplicity/directory_scanner.py b/dataplicity/directory_scanner.py
index 82c25b5..7408969 100644
--- a/dataplicity/directory_scanner.py
+++ b/dataplicity/directory_scanner.py
@@ -29,19 +29,33 @@ class DirectoryScanner(object):
 
         self._lock = Lock()
 
-    def perform_scan(self, file_sizes=True, on_success=None):
-        # type: (bool, Callable[[], None]) -> None
+    def perform_scan(self, file_sizes=True, on_success=None, on_fail=None):
+        # type: (bool, Callable[[], None], Callable[[Exception], None]) -> None
         """Perform a scan in the background."""
         if self._lock.locked():
             # Scan is in progress, no point in doing another
             return
         thread = Thread(
             target=self._perform_scan,
-            kwargs={"file_sizes": file_sizes, "on_success": on_success},
+            kwargs={
+                "file_sizes": file_sizes,
+                "on_success": on_success,
+                "on_fail": on_fail,
+            },
         )
         thread.start()
 
-    def _perform_scan(self, file_sizes=True, on_success=None):
+    def _perform_scan(self, file_sizes=True, on_success=None, on_fail=None):
+        # type: (bool, Optional[Callable], Optional[Callable]) -> None
+        """Scan and upload directory structure, report failure."""
+        try:
+            self._scan(file_sizes=file_sizes, on_success=on_success)
+        except Exception as error:
+            if on_fail is None:
+                raise
+            on_fail(error)
+
+    def _scan(self, file_sizes=True, on_success=None):
         # type: (bool, Optional[Callable]) -> None
         """Scan and upload directory structure."""
         with self._lock:
diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index db8ac40..2862fb6 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -480,10 +480,13 @@ class WSClient(threading.Thread):
         def on_success():
             self.send("scan_remote_directory_result", "")
 
+        def on_fail(error):
+            self.send("scan_remote_directory_result", str(error))
+
         try:
-            self.remote_directory.scan(on_success=on_success)
+            self.remote_directory.scan(on_success=on_success, on_fail=on_fail)
         except Exception as error:
-            self.send("scan_remote_directory_result", str(error))
+            on_fail(error)
 
     @expose(PacketType.write_remote_file)
     def on_write_remote_file(
diff --git a/dataplicity/remote_directory.py b/dataplicity/remote_directory.py
index 7a56d17..0d8a481 100644
--- a/dataplicity/remote_directory.py
+++ b/dataplicity/remote_directory.py
@@ -88,10 +88,10 @@ class RemoteDirectory(object):
         # type: () -> Text
         return "RemoteDirectory(%r)" % self.path
 
-    def scan(self, on_success=None):
-        # type: (Callable[[], None]) -> None
+    def scan(self, on_success=None, on_fail=None):
+        # type: (Callable[[], None], Callable[[Exception], None]) -> None
         """Scan remote directory."""
-        self.directory_scanner.perform_scan(on_success=on_success)
+        self.directory_scanner.perform_scan(on_success=on_success, on_fail=on_fail)
 
     def get_snapshot_path(self, upload_id):
         # type: (Text) -> Text
-- 
2.43.0


From 4d79cca76c6796bf4317b1877694e35cba7d3708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:30 +0000
Subject: [PATCH 11/29] fix: skip the rest of a directory that can't be read
 while scanning

---
 dataplicity/scan_directory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataplicity/scan_directory.py b/dataplicity/scan_directory.py
index edd4955..d0d34e9 100644
--- a/dataplicity/scan_directory.py
+++ b/dataplicity/scan_directory.py
@@ -139,6 +139,10 @@ def scan_directory(root_path, file_sizes=False, max_depth=10):
             # End of directory scan, we can discard top of stack
             pop()
             continue
+        except Exception as error:
+            log.warning("error reading directory %r; %s", path, error)
+            pop()
+            continue
         if dir_entry.name.startswith("."):
             # Exclude hidden files and directories
             continue
-- 
2.43.0


From 50b0f46527718b8e4ee7c18e4f64dd5c19058a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:30 +0000
Subject: [PATCH 12/29] fix: forget channels and callbacks of a lost connection

---
 dataplicity/m2m/wsclient.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index 2862fb6..0ddfd0f 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -237,6 +237,7 @@ class WSClient(threading.Thread):
                         callback(None)
                     except Exception:
                         log.exception("error clearing callback")
+            self.callbacks.clear()
 
     def get_channel(self, channel_no):
         # TODO: Create channels in response to packets
@@ -253,7 +254,9 @@ class WSClient(threading.Thread):
 
     def hard_close_channels(self):
         """Called when all the channels have been abruptly closed."""
-        for channel in self.channels.values():
+        channels = list(self.channels.values())
+        self.channels.clear()
+        for channel in channels:
             channel.on_close()
 
     def run(self):
-- 
2.43.0


From c7fe1a088e53a4e6c1ead6431129834b71f5b0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:30 +0000
Subject: [PATCH 13/29] fix: hold the locks when sending and when adding a
 callback

---
 dataplicity/m2m/wsclient.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index 0ddfd0f..5e8c758 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -216,7 +216,8 @@ class WSClient(threading.Thread):
         return self.channels.keys()
 
     def add_callback(self, command_id, callback):
-        self.callbacks[command_id].append(callback)
+        with self.callback_lock:
+            self.callbacks[command_id].append(callback)
 
     def callback(self, command_id, result):
         with self.callback_lock:
@@ -306,7 +307,9 @@ class WSClient(threading.Thread):
     def send_bytes(self, packet_bytes):
         """Send bytes over the websocket."""
         try:
-            self.websocket.send_binary(packet_bytes)
+            # One message at a time, for compression and framing
+            with self.write_lock:
+                self.websocket.send_binary(packet_bytes)
         except WebSocketError:
             return False
         else:
-- 
2.43.0


From e1aeaf3819c58e23431874787f83a60e2ee1407c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:30 +0000
Subject: [PATCH 14/29] fix: reconnect when the m2m server stops responding

---
 dataplicity/m2m/wsclient.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index 5e8c758..850e20a 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -15,6 +15,7 @@ from lomond.errors import WebSocketError
 
 from . import bencode
 from . import packets
+from .. import constants
 from ..compat import text_type
 from .dispatcher import Dispatcher, expose
 from .packets import M2MPacket as Packet
@@ -264,7 +265,10 @@ class WSClient(threading.Thread):
         """Main websocket handling loop."""
         try:
             with self.websocket:
-                for event in persist(self.websocket):
+                for event in persist(
+                    self.websocket,
+                    ping_timeout=constants.MAX_TIME_SINCE_LAST_PACKET,
+                ):
                     log.debug("WS %r", event)
                     try:
                         self.on_event(event)
-- 
2.43.0


From 7e4e0d8f93c76b0360780cba05c565e786425bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:30 +0000
Subject: [PATCH 15/29] fix: set a timeout on API requests

---
 dataplicity/constants.py | 3 +++
 dataplicity/jsonrpc.py   | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/dataplicity/constants.py b/dataplicity/constants.py
index d6daf50..2ec1864 100644
--- a/dataplicity/constants.py
+++ b/dataplicity/constants.py
@@ -33,6 +33,9 @@ REMOTE_DIRECTORY_LOCATION = "/home/dataplicity/remote"
 # Client will reconnect if the server hasn't responded in this time
 MAX_TIME_SINCE_LAST_PACKET = 100.0  # seconds or None
 
+# Longest wait for a response from the API
+API_TIMEOUT = 60.0  # seconds
+
 # Number of bytes to read at a time, when copying date over the network
 # TODO: Replace this with a sensible chunk size once we identify the
 # issue with ssh over Porthole
diff --git a/dataplicity/jsonrpc.py b/dataplicity/jsonrpc.py
index 2d96f33..72843a4 100644
--- a/dataplicity/jsonrpc.py
+++ b/dataplicity/jsonrpc.py
@@ -4,6 +4,7 @@ from __future__ import unicode_literals
 import json
 import logging
 
+from . import constants
 from .compat import urlopen, text_type
 
 
@@ -185,7 +186,9 @@ class JSONRPC(object):
         url_file = None
         try:
             try:
-                url_file = urlopen(self.url, call_json)
+                url_file = urlopen(
+                    self.url, call_json, timeout=constants.API_TIMEOUT
+                )
                 response_json = url_file.read().decode("utf-8")
             finally:
                 if url_file is not None:
-- 
2.43.0


From 0ae8448f094e069c39775856f8c4e266c5b2dc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:30 +0000
Subject: [PATCH 16/29] fix: exit the child process if the terminal command
 can't be run as configured

---
 dataplicity/m2m/proxy.py | 58 +++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 25 deletions(-)

diff --git a/dataplicity/m2m/proxy.py b/dataplicity/m2m/proxy.py
index dc6646f..7ba0921 100644
--- a/dataplicity/m2m/proxy.py
+++ b/dataplicity/m2m/proxy.py
@@ -65,31 +65,39 @@ class Interceptor(object):
         self.master_fd = master_fd
         self.pid = pid
         if pid == pty.CHILD:
-            if self.user is not None:
-                try:
-                    uid = pwd.getpwnam(self.user).pw_uid
-                except KeyError:
-                    log.error("No such user: %s", self.user)
-                else:
-                    os.setuid(uid)
-                    log.debug(
-                        "switched user for remote process to %s(%s)", self.user, uid
-                    )
-            if self.group is not None:
-                try:
-                    gid = grp.getgrnam(self.group).gr_gid
-                except KeyError:
-                    log.error("No such group: %s", self.group)
-                else:
-                    os.setgid(gid)
-                    log.debug(
-                        "switched group for remote process to %s(%s)", self.group, gid
-                    )
-            if not argv:
-                argv = [os.environ["SHELL"]]
-            os.execlp(argv[0], *argv)
-            # Previous command replaces the process
-            return
+            try:
+                # Group first, because it can't be changed without privilege
+                if self.group is not None:
+                    try:
+                        gid = grp.getgrnam(self.group).gr_gid
+                    except KeyError:
+                        log.error("No such group: %s", self.group)
+                        raise
+                    else:
+                        os.setgid(gid)
+                        log.debug(
+                            "switched group for remote process to %s(%s)",
+                            self.group,
+                            gid,
+                        )
+                if self.user is not None:
+                    try:
+                        uid = pwd.getpwnam(self.user).pw_uid
+                    except KeyError:
+                        log.error("No such user: %s", self.user)
+                        raise
+                    else:
+                        os.setuid(uid)
+                        log.debug(
+                            "switched user for remote process to %s(%s)", self.user, uid
+                        )
+                if not argv:
+                    argv = [os.environ["SHELL"]]
+                os.execlp(argv[0], *argv)
+                # Previous command replaces the process
+            finally:
+                # The command couldn't be run, don't continue as another agent
+                os._exit(1)
 
         self._init_fd()
         try:
-- 
2.43.0


From 319ed7f291229fd861d9a21c44f17a6b83e5cf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:30 +0000
Subject: [PATCH 17/29] fix: close the channel when a terminal process ends

---
 dataplicity/m2m/remoteprocess.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataplicity/m2m/remoteprocess.py b/dataplicity/m2m/remoteprocess.py
index f35e02a..53cf19d 100644
--- a/dataplicity/m2m/remoteprocess.py
+++ b/dataplicity/m2m/remoteprocess.py
@@ -98,6 +98,7 @@ class RemoteProcess(proxy.Interceptor):
             self.spawn(shlex.split(self.command))
         finally:
             self.limiter.decrement()
+            self.channel.close()
 
     def on_data(self, data):
         try:
-- 
2.43.0


From 731e510d216b79c01b4f6bfe52817c6eba595d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:30 +0000
Subject: [PATCH 18/29] fix: hang up a terminal process started after its
 channel closed

---
 dataplicity/m2m/remoteprocess.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/dataplicity/m2m/remoteprocess.py b/dataplicity/m2m/remoteprocess.py
index 53cf19d..1ccf4fb 100644
--- a/dataplicity/m2m/remoteprocess.py
+++ b/dataplicity/m2m/remoteprocess.py
@@ -9,7 +9,7 @@ import os
 import signal
 import shlex
 import time
-from threading import Thread
+from threading import Lock, Thread
 
 from . import proxy
 
@@ -78,6 +78,8 @@ class RemoteProcess(proxy.Interceptor):
         self.channel = channel
         self.size = size
         self._closed = False
+        self._hangup_lock = Lock()
+        self._hung_up = False
         self.channel.set_callbacks(
             on_data=self.on_data, on_close=self.on_close, on_control=self.on_control
         )
@@ -130,16 +132,28 @@ class RemoteProcess(proxy.Interceptor):
     def write_master(self, data):
         super(RemoteProcess, self).write_master(data)
 
+    def _init_fd(self):
+        # The channel may have been closed before there was a process
+        self._hang_up()
+        super(RemoteProcess, self)._init_fd()
+
     def close(self):
-        if not self._closed and self.pid is not None:
-            log.debug("sending SIGHUP to %r", self)
-            os.kill(self.pid, signal.SIGHUP)
-            try:
-                wait_thread = PidWaitThread(self.command, self.pid)
-                wait_thread.start()
-            except Exception as error:
-                log.warning("pid wait thread failed to launch; %s", error)
         self._closed = True
+        self._hang_up()
+
+    def _hang_up(self):
+        """Hang up the process, once it is both started and closed."""
+        with self._hangup_lock:
+            if not self._closed or self.pid is None or self._hung_up:
+                return
+            self._hung_up = True
+        log.debug("sending SIGHUP to %r", self)
+        os.kill(self.pid, signal.SIGHUP)
+        try:
+            wait_thread = PidWaitThread(self.command, self.pid)
+            wait_thread.start()
+        except Exception as error:
+            log.warning("pid wait thread failed to launch; %s", error)
 
     def __enter__(self):
         return self
-- 
2.43.0


From 9c713dc7ec81c76da4db23357a24579e87678991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:30 +0000
Subject: [PATCH 19/29] fix: report an invalid log level

---
 dataplicity/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataplicity/app.py b/dataplicity/app.py
index 13066b6..f3d0fdc 100644
--- a/dataplicity/app.py
+++ b/dataplicity/app.py
@@ -123,7 +123,7 @@ class App(object):
         log_level = "CRITICAL" if self.args.quiet else self.args.log_level.upper()
         try:
             log_level_no = _logging_level_names[log_level]
-        except IndexError:
+        except KeyError:
             self.error("invalid log level")
 
         if self.args.log_file:
-- 
2.43.0


From 98b697188075a598e383571b73cd66eb7ee2cde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:30 +0000
Subject: [PATCH 20/29] fix: don't write the auth token given on the command
 line to stderr

---
 dataplicity/app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataplicity/app.py b/dataplicity/app.py
index f3d0fdc..398c88b 100644
--- a/dataplicity/app.py
+++ b/dataplicity/app.py
@@ -193,7 +193,7 @@ class App(object):
                 raise
             sys.stderr.write("(dataplicity {}) {}\n".format(__version__, e))
             cmd = sys.argv[0].rsplit("/", 1)[-1]
-            debug_cmd = " ".join([cmd, "--debug"] + sys.argv[1:])
+            debug_cmd = " ".join([cmd, "--debug", args.subcommand])
             sys.stderr.write("(run '{}' for a full traceback)\n".format(debug_cmd))
             return -1
 
-- 
2.43.0


From 4bb303a66b0bce80dddf1216aa1b4057197f6e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:11 +0000
Subject: [PATCH 21/29] fix: raise EncodingError for a dictionary with mixed
 kinds of keys

---
 dataplicity/m2m/bencode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataplicity/m2m/bencode.py b/dataplicity/m2m/bencode.py
index 337f0cf..816887e 100644
--- a/dataplicity/m2m/bencode.py
+++ b/dataplicity/m2m/bencode.py
@@ -79,10 +79,10 @@ def encode(obj):
             append(b"e")
         elif isinstance(obj, dict):
             append(b"d")
-            keys = sorted(obj.keys())
-            for k in keys:
+            for k in obj:
                 if not isinstance(k, bytes):
                     raise EncodingError("dict keys must be bytes")
+            for k in sorted(obj.keys()):
                 add_encode(k)
                 add_encode(obj[k])
             append(b"e")
-- 
2.43.0


From 463153def6ddfac4f2798e71e5ca431f9cb57878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:08 +0000
Subject: [PATCH 22/29] fix: ignore M2M messages that are not a list

---
 dataplicity/m2m/wsclient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index 850e20a..1437b81 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -350,6 +350,8 @@ class WSClient(threading.Thread):
     def on_packet(self, packet):
         """Called with a binary packet."""
         try:
+            if not isinstance(packet, list):
+                raise ValueError("packet must be a list")
             packet_type = packet[0]
             packet_body = packet[1:]
         except Exception:
-- 
2.43.0


From cbfe90b21a4542735ee8401061dbf9f5bbd08cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:08 +0000
Subject: [PATCH 23/29] fix: Close the channel of a connection even if the
 clock has not advanced

---
 dataplicity/portforward.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dataplicity/portforward.py b/dataplicity/portforward.py
index c2cd82a..77f02b1 100644
--- a/dataplicity/portforward.py
+++ b/dataplicity/portforward.py
@@ -108,12 +108,14 @@ class Connection(threading.Thread):
                         reading = False
         finally:
 
-            speed = bytes_written / 1024.0 / (time() - self._start_time)
-            log.debug("left recv loop (read %s bytes) %0.1fKB/s ", bytes_written, speed)
             # These close methods are a null operation if the objects are
             # already closed
             self.channel.close()
             self._shutdown_read()
+            # The clock may not have advanced, or been set back
+            elapsed = max(time() - self._start_time, 0.001)
+            speed = bytes_written / 1024.0 / elapsed
+            log.debug("left recv loop (read %s bytes) %0.1fKB/s ", bytes_written, speed)
 
     def _shutdown_read(self):
         """Shutdown reading."""
-- 
2.43.0


From 001bbd633ccf633adc451686a27b63e55d8e1863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:58 +0000
Subject: [PATCH 24/29] fix: read terminal output to its end after the process
 hangs up

---
 dataplicity/m2m/proxy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataplicity/m2m/proxy.py b/dataplicity/m2m/proxy.py
index 7ba0921..11c90ba 100644
--- a/dataplicity/m2m/proxy.py
+++ b/dataplicity/m2m/proxy.py
@@ -156,6 +156,9 @@ class Interceptor(object):
                 if event_mask & readable_events:
                     data = os.read(master_fd, 1024 * 1024)
                     self.master_read(data)
+                    if data:
+                        # There may be more to read, even after a hang up
+                        continue
                 if event_mask & error_events:
                     reading = False
                     break
-- 
2.43.0


From 0f219541de621e8a1854722cbc158a7a789d5f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:28 +0000
Subject: [PATCH 25/29] fix: apply the size last asked for when a terminal is
 resized while it starts

---
 dataplicity/m2m/proxy.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dataplicity/m2m/proxy.py b/dataplicity/m2m/proxy.py
index 11c90ba..5728f43 100644
--- a/dataplicity/m2m/proxy.py
+++ b/dataplicity/m2m/proxy.py
@@ -26,6 +26,7 @@ import pty
 import select
 import sys
 import termios
+import threading
 import pwd
 import grp
 
@@ -53,6 +54,7 @@ class Interceptor(object):
         self.size = size
         self.master_fd = None
         self.pid = None
+        self._size_lock = threading.Lock()
 
     def spawn(self, argv=None):
         """
@@ -112,7 +114,8 @@ class Interceptor(object):
         """
         Called once when the pty is first set up.
         """
-        self._set_pty_size()
+        with self._size_lock:
+            self._set_pty_size()
 
     def _signal_winch(self, signum, frame):
         """
@@ -165,9 +168,11 @@ class Interceptor(object):
 
     def resize_terminal(self, size):
         """Resize terminal to [COLUMNS, LINES]"""
-        self.size = size
-        if self.master_fd is not None:
-            self._set_pty_size()
+        # The terminal's thread may be about to set the previous size
+        with self._size_lock:
+            self.size = size
+            if self.master_fd is not None:
+                self._set_pty_size()
 
     def write_stdout(self, data):
         """
-- 
2.43.0


From b34e4e88363b1780f5a63a9cdc9e8b8b6f71f2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:49 +0000
Subject: [PATCH 26/29] fix: close a terminal's descriptor on every end, and
 never while it is written to

---
 dataplicity/m2m/proxy.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/dataplicity/m2m/proxy.py b/dataplicity/m2m/proxy.py
index 5728f43..82e4b28 100644
--- a/dataplicity/m2m/proxy.py
+++ b/dataplicity/m2m/proxy.py
@@ -55,6 +55,7 @@ class Interceptor(object):
         self.master_fd = None
         self.pid = None
         self._size_lock = threading.Lock()
+        self._input_lock = threading.Lock()
 
     def spawn(self, argv=None):
         """
@@ -101,14 +102,17 @@ class Interceptor(object):
                 # The command couldn't be run, don't continue as another agent
                 os._exit(1)
 
-        self._init_fd()
         try:
-            self._copy()
-        except (IOError, OSError):
-            pass
-
-        os.close(master_fd)
-        self.master_fd = None
+            self._init_fd()
+            try:
+                self._copy()
+            except (IOError, OSError):
+                pass
+        finally:
+            # Not while another thread uses it, as the number may be reused at once
+            with self._size_lock, self._input_lock:
+                self.master_fd = None
+                os.close(master_fd)
 
     def _init_fd(self):
         """
@@ -185,11 +189,12 @@ class Interceptor(object):
         """
         Writes to the child process from its controlling terminal.
         """
-        master_fd = self.master_fd
-        assert master_fd is not None
-        while data:
-            n = os.write(master_fd, data)
-            data = data[n:]
+        with self._input_lock:
+            master_fd = self.master_fd
+            assert master_fd is not None
+            while data:
+                n = os.write(master_fd, data)
+                data = data[n:]
 
     def master_read(self, data):
         """
-- 
2.43.0


From e600f31a8d2cae01f0912757a1d67d9b5146eedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:22 +0000
Subject: [PATCH 27/29] fix: send nothing on a channel that closes meanwhile

---
 dataplicity/m2m/wsclient.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/dataplicity/m2m/wsclient.py b/dataplicity/m2m/wsclient.py
index 1437b81..b393749 100644
--- a/dataplicity/m2m/wsclient.py
+++ b/dataplicity/m2m/wsclient.py
@@ -69,14 +69,17 @@ class Channel(object):
 
     def close(self):
         """Call to *request* a close."""
-        if not self._closed:
-            self.client.close_channel(self.number)
+        with self._lock:
+            if not self._closed:
+                self.client.close_channel(self.number)
 
     def on_close(self):
         """Called when the notify_close packet is received."""
-        if self._closed:
-            return
-        self._closed = True
+        # The number may be used for another channel, don't close amid a write
+        with self._lock:
+            if self._closed:
+                return
+            self._closed = True
         try:
             if self._close_callback is not None:
                 self._close_callback()
@@ -152,14 +155,14 @@ class Channel(object):
 
     def write(self, data):
         assert isinstance(data, bytes), "data must be bytes"
-        if not self.is_closed:
-            with self._lock:
+        with self._lock:
+            if not self.is_closed:
                 self.client.channel_write(self.number, data)
 
     def send_control(self, control):
         """Write a control packet."""
-        if not self.is_closed:
-            with self._lock:
+        with self._lock:
+            if not self.is_closed:
                 self.client.channel_control_write(self.number, control)
 
     def get_file(self):
-- 
2.43.0


From 3a51295acc86b909223197ca168d7c7997af5c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:47 +0000
Subject: [PATCH 28/29] fix: start the m2m client after what its thread uses is
 set up

---
 dataplicity/client.py     | 1 +
 dataplicity/m2mmanager.py | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/dataplicity/client.py b/dataplicity/client.py
index d5ace6a..058861f 100644
--- a/dataplicity/client.py
+++ b/dataplicity/client.py
@@ -93,6 +93,7 @@ class Client(object):
                 self, self.remote_directory, m2m_url=self.m2m_url
             )
             self.port_forward = PortForwardManager.init(self)
+            self.m2m.start()
 
         except Exception:
             log.exception("failed to initialize client")
diff --git a/dataplicity/m2mmanager.py b/dataplicity/m2mmanager.py
index b89ff21..ad6a9ea 100644
--- a/dataplicity/m2mmanager.py
+++ b/dataplicity/m2mmanager.py
@@ -104,10 +104,13 @@ class M2MManager(object):
         """Set up the m2m manager for Dataplicity."""
         url = m2m_url or constants.M2M_URL
         manager = cls(client, url, remote_directory)
-        manager.m2m_client.start()
         manager.add_terminal("shell", "bash -i")
         return manager
 
+    def start(self):
+        """Connect to the m2m server, instructions may follow at once."""
+        self.m2m_client.start()
+
     def restart_agent(self):
         """Restart the agent."""
         self.client.exit()
-- 
2.43.0


From 2cc85d74bba7f84bee62bdc3d2d256bc349c7d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:51 +0000
Subject: [PATCH 29/29] fix: decode control messages, json.loads takes no bytes
 before Python 3.6

Resize requests were refused on Python 3.5, which is supported.
---
 dataplicity/m2m/remoteprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataplicity/m2m/remoteprocess.py b/dataplicity/m2m/remoteprocess.py
index 1ccf4fb..91fafff 100644
--- a/dataplicity/m2m/remoteprocess.py
+++ b/dataplicity/m2m/remoteprocess.py
@@ -110,7 +110,7 @@ class RemoteProcess(proxy.Interceptor):
 
     def on_control(self, data):
         try:
-            control = json.loads(data)
+            control = json.loads(data.decode("utf-8"))
         except Exception:
             log.exception("error decoding control")
             return
-- 
2.43.0

