From 7f6db53d98ac45020474002426e800e0438f1e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:45 +0000
Subject: [PATCH 01/53] fix: report a connection error when the stream ends
 inside a packet

A short read in the middle of a bytes or str field was returned as if it was
the complete value, so a truncated stream could produce a valid looking packet.
---
 src/fora/connectors/tunnel_dispatcher.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index b35d694..63698d5 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -168,7 +168,10 @@ class Connection:
 
     def read(self, count: int) -> bytes:
         """Reads exactly the given amount of bytes."""
-        return self.buffer_in.read(count)
+        data = self.buffer_in.read(count)
+        if len(data) != count:
+            raise IOError("Unexpected EOF in data stream")
+        return data
 
     def write(self, data: bytes, count: int) -> None:
         """Writes exactly the given amount of bytes from data."""
-- 
2.43.0


From 67c8ca8848c625763fc84feb2e0b212aac114a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:45 +0000
Subject: [PATCH 02/53] fix: never leave a partial packet on the stream when
 serialization fails

---
 src/fora/connectors/tunnel_dispatcher.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 63698d5..e30b455 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -9,6 +9,7 @@ needed remote system related utilities.
 
 import errno as sys_errno
 import hashlib
+import io
 import os
 import stat
 import struct
@@ -265,10 +266,16 @@ def _read_packet(cls: Type[Any], conn: Connection) -> Any:
     return cls(**kwargs)
 
 def _write_packet(cls: Type[Any], packet_id: u32, this: object, conn: Connection) -> None:
-    _serialize(conn, u32, packet_id)
+    # Serialize to memory first, so that a packet which cannot be serialized
+    # doesn't leave a partial packet on the stream.
+    buffer = io.BytesIO()
+    buffer_conn = Connection(buffer, buffer)
+    _serialize(buffer_conn, u32, packet_id)
     for f in cls._fields:
         ftype = cls.__annotations__[f]
-        _serialize(conn, ftype, getattr(this, f))
+        _serialize(buffer_conn, ftype, getattr(this, f))
+    data = buffer.getvalue()
+    conn.write(data, len(data))
     conn.flush()
 
 def Packet(type: str) -> Callable[[Type[Any]], Any]: # pylint: disable=redefined-builtin
-- 
2.43.0


From fe5ced66e8e3125e0f9a55c8d651ebd7347f85e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:45 +0000
Subject: [PATCH 03/53] fix: transmit strings that contain lone surrogates

Python represents undecodable bytes (e.g. in environment variables, paths or
gecos fields) by lone surrogates, which could not be sent and killed the dispatcher.
---
 src/fora/connectors/tunnel_dispatcher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index e30b455..1475364 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -204,7 +204,7 @@ _serializers[u32]   = lambda conn, v: conn.write(pack(">I", v), 4)
 _serializers[i64]   = lambda conn, v: conn.write(pack(">q", v), 8)
 _serializers[u64]   = lambda conn, v: conn.write(pack(">Q", v), 8)
 _serializers[bytes] = lambda conn, v: (_serializers[u64](conn, len(v)), conn.write(v, len(v))) # type: ignore[func-returns-value]
-_serializers[str]   = lambda conn, v: _serializers[bytes](conn, v.encode('utf-8'))
+_serializers[str]   = lambda conn, v: _serializers[bytes](conn, v.encode('utf-8', 'surrogatepass'))
 
 def _serialize(conn: Connection, vtype: Type[Any], v: Any) -> None:
     """Serializes v based on the underlying type 'vtype' and writes it to the given connection."""
@@ -230,7 +230,7 @@ _deserializers[u32]   = lambda conn: unpack(">I", conn.read(4))[0]
 _deserializers[i64]   = lambda conn: unpack(">q", conn.read(8))[0]
 _deserializers[u64]   = lambda conn: unpack(">Q", conn.read(8))[0]
 _deserializers[bytes] = lambda conn: conn.read(_deserializers[u64](conn))
-_deserializers[str]   = lambda conn: _deserializers[bytes](conn).decode('utf-8')
+_deserializers[str]   = lambda conn: _deserializers[bytes](conn).decode('utf-8', 'surrogatepass')
 
 def _deserialize(conn: Connection, vtype: Type[Any]) -> Any:
     """Deserializes an object from the given connection based on the underlying type 'vtype' and returns it."""
-- 
2.43.0


From 75777b630c5744b4a98bc9452f23da059b8f2749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:45 +0000
Subject: [PATCH 04/53] fix: allow timestamps before the epoch in stat results

---
 src/fora/connectors/tunnel_dispatcher.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 1475364..7c655ac 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -439,8 +439,8 @@ class PacketStatResult(NamedTuple):
     owner: str
     group: str
     size: u64
-    mtime: u64
-    ctime: u64
+    mtime: i64
+    ctime: i64
     sha512sum: Optional[bytes]
 
 @Packet(type='request')
@@ -493,8 +493,8 @@ class PacketStat(NamedTuple):
             owner=owner,
             group=group,
             size=u64(s.st_size),
-            mtime=u64(s.st_mtime_ns),
-            ctime=u64(s.st_ctime_ns),
+            mtime=i64(s.st_mtime_ns),
+            ctime=i64(s.st_ctime_ns),
             sha512sum=sha512sum))
 
 @Packet(type='response')
-- 
2.43.0


From da9d1bd04b72eb4936509ff6575d0b3170cd2b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:03 +0000
Subject: [PATCH 05/53] fix: answer requests whose handler fails with something
 other than an OSError

Values such as an embedded null byte or an empty command raised a ValueError,
IndexError or OverflowError, which killed the dispatcher and thus the connection.
---
 src/fora/connectors/tunnel_dispatcher.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 7c655ac..127efdb 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -805,7 +805,11 @@ def _main() -> None:
         try:
             packet.handle(conn)
         except OSError as e:
-            conn.write_packet(PacketOSError(errno=i64(e.errno), strerror=e.strerror, msg=str(e)))
+            conn.write_packet(PacketOSError(errno=i64(e.errno or 0), strerror=e.strerror or "", msg=str(e)))
+        except Exception as e: # pylint: disable=broad-except
+            # E.g. a ValueError because of an embedded null byte. The client is
+            # waiting for a response, and the connection can still be used.
+            conn.write_packet(PacketOSError(errno=i64(sys_errno.EINVAL), strerror=os.strerror(sys_errno.EINVAL), msg=f"{type(e).__name__}: {str(e)}"))
 
 if __name__ == '__main__':
     _main()
-- 
2.43.0


From 3c07bcd053d5660804989d69ea9df48c7a847f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:13 +0000
Subject: [PATCH 06/53] fix: reject octal modes outside of 0-7777

A negative umask or mode was silently applied, and one that is too large
raised an error only after an upload had already overwritten the file.
---
 src/fora/connectors/tunnel_dispatcher.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 127efdb..fcdea0c 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -74,7 +74,7 @@ def _log(msg: str) -> None:
 def _resolve_oct(value: str) -> int:
     """
     Resolves an octal string to a numeric value (e.g. for umask or mode).
-    Raises a ValueError if the value is malformed.
+    Raises a ValueError if the value is malformed or not a valid mode.
 
     Parameters
     ----------
@@ -87,9 +87,12 @@ def _resolve_oct(value: str) -> int:
         The numeric representation of the octal value
     """
     try:
-        return int(value, 8)
+        mode = int(value, 8)
     except ValueError:
         raise ValueError(f"Invalid value '{value}': Must be in octal format.") # pylint: disable=raise-missing-from
+    if not 0 <= mode <= 0o7777:
+        raise ValueError(f"Invalid value '{value}': Must be between 0 and 7777.")
+    return mode
 
 def _resolve_user(user: str) -> tuple[int, int]:
     """
-- 
2.43.0


From 719af8eb5774e2600ef6b8129709d83ec7a647c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:13 +0000
Subject: [PATCH 07/53] fix: keep setuid and setgid bits when uploading with an
 owner

---
 src/fora/connectors/tunnel_dispatcher.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index fcdea0c..13e60f0 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -594,10 +594,11 @@ class PacketUpload(NamedTuple):
 
         with open(self.file, 'wb') as f:
             f.write(self.content)
-        if mode_oct is not None:
-            os.chmod(self.file, mode_oct)
+        # The mode must be set last, because changing the owner clears the setuid and setgid bits
         if uid is not None or gid is not None:
             os.chown(self.file, uid or 0, gid or 0)
+        if mode_oct is not None:
+            os.chmod(self.file, mode_oct)
 
         conn.write_packet(PacketOk())
 
-- 
2.43.0


From 519703bdfeabfb6c2a10934e2f5a4f3629f195e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:36 +0000
Subject: [PATCH 08/53] fix: keep setuid and setgid bits when changing the
 owner of a file

---
 src/fora/operations/files.py | 11 ++++++-----
 src/fora/operations/utils.py | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 59659c8..db84f41 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -215,13 +215,14 @@ def file(path: str,
                 if op.changed("exists") or op.changed("touched"):
                     conn.run(["touch", "--", path])
 
-                # Set correct mode, if needed
-                if op.changed("mode"):
-                    conn.run(["chmod", attr.file_mode, "--", path])
-
                 # Set correct owner and group, if needed
-                if op.changed("owner") or op.changed("group"):
+                change_owner = op.changed("owner") or op.changed("group")
+                if change_owner:
                     conn.run(["chown", f"{attr.owner}:{attr.group}", "--", path])
+
+                # Set correct mode, if needed. Changing the owner clears the setuid and setgid bits.
+                if op.changed("mode") or change_owner:
+                    conn.run(["chmod", attr.file_mode, "--", path])
             else:
                 # Remove file if it should not be present
                 if op.changed("exists"):
diff --git a/src/fora/operations/utils.py b/src/fora/operations/utils.py
index 3bceae8..2e053d6 100644
--- a/src/fora/operations/utils.py
+++ b/src/fora/operations/utils.py
@@ -168,14 +168,15 @@ def save_content(op: Operation,
                         owner=attr.owner,
                         group=attr.group)
             else:
-                # Set correct mode, if needed
-                if op.changed("mode"):
-                    conn.run(["chmod", attr.file_mode, "--", dest])
-
                 # Set correct owner and group, if needed
-                if op.changed("owner") or op.changed("group"):
+                change_owner = op.changed("owner") or op.changed("group")
+                if change_owner:
                     conn.run(["chown", f"{attr.owner}:{attr.group}", "--", dest])
 
+                # Set correct mode, if needed. Changing the owner clears the setuid and setgid bits.
+                if op.changed("mode") or change_owner:
+                    conn.run(["chmod", attr.file_mode, "--", dest])
+
         return op.success()
 
 def check_absolute_path(path: str, path_desc: str) -> None:
-- 
2.43.0


From 33fa0e9876f12d9f16e1d15c4a67585d413476ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:36 +0000
Subject: [PATCH 09/53] fix: clear setuid and setgid bits of directories when
 the mode asks for it

---
 src/fora/operations/files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index db84f41..522862d 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -127,7 +127,8 @@ def directory(path: str,
 
                 # Set correct mode, if needed
                 if op.changed("mode"):
-                    conn.run(["chmod", attr.dir_mode, "--", path])
+                    # chmod keeps setuid and setgid bits on directories unless the mode has at least five digits
+                    conn.run(["chmod", attr.dir_mode.zfill(5), "--", path])
 
                 # Set correct owner and group, if needed
                 if op.changed("owner") or op.changed("group"):
-- 
2.43.0


From a5cbb84fcd4e80a7ad3d4f7429e8b3817dc92dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:07 +0000
Subject: [PATCH 10/53] fix: reject and canonicalize modes when resolving
 remote settings

---
 src/fora/connection.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/fora/connection.py b/src/fora/connection.py
index ec98372..bd0768c 100644
--- a/src/fora/connection.py
+++ b/src/fora/connection.py
@@ -75,22 +75,25 @@ class Connection:
         # Overlay settings on top of defaults
         settings = fora.script.current_defaults().overlay(settings)
 
-        # A function to check whether a mask is octal
-        def check_mask(mask: Optional[str], name: str) -> None:
+        # A function to check whether a mask is a valid octal mask, which returns its canonical form
+        def check_mask(mask: Optional[str], name: str) -> str:
             if mask is None:
                 raise ValueError(f"Error while resolving settings: {name} cannot be None!")
             try:
-                int(mask, 8)
+                value = int(mask, 8)
             except ValueError:
                 raise ValueError(f"Error while resolving settings: {name} is '{mask}' but must be octal!") # pylint: disable=raise-missing-from
+            if not 0 <= value <= 0o7777:
+                raise ValueError(f"Error while resolving settings: {name} is '{mask}' but must be between 0 and 7777!")
+            return oct(value)[2:]
 
         settings.as_user  =  None if settings.as_user  is None else self.resolve_user(settings.as_user)
         settings.as_group =  None if settings.as_group is None else self.resolve_group(settings.as_group)
         settings.owner    =  None if settings.owner    is None else self.resolve_user(settings.owner)
         settings.group    =  None if settings.group    is None else self.resolve_group(settings.group)
-        check_mask(settings.file_mode, "file_mode")
-        check_mask(settings.dir_mode, "dir_mode")
-        check_mask(settings.umask, "umask")
+        settings.file_mode = check_mask(settings.file_mode, "file_mode")
+        settings.dir_mode = check_mask(settings.dir_mode, "dir_mode")
+        settings.umask = check_mask(settings.umask, "umask")
         if settings.cwd:
             s = self.stat(settings.cwd)
             if not s:
-- 
2.43.0


From 0fa5af1576a24fe64172ed6dcf8c1bea0c39efd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:33 +0000
Subject: [PATCH 11/53] fix: replace links to directories and apply the owner
 to replaced links

---
 src/fora/operations/files.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 522862d..4d77040 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -302,12 +302,13 @@ def link(path: str,
         # Apply actions to reach desired state, but only if we are not doing a dry run
         if not fora.args.dry:
             if present:
-                # Create link if it doesn't exist
+                # Create link if it doesn't exist. Use -n to replace an existing link
+                # to a directory, instead of creating a new link inside of that directory.
                 if op.changed("target"):
-                    conn.run(["ln", "-sf", "--", target, path])
+                    conn.run(["ln", "-sfn", "--", target, path])
 
-                # Set correct owner and group, if needed
-                if op.changed("owner") or op.changed("group"):
+                # Set correct owner and group, if needed. Changing the target replaces the link by a new one.
+                if op.changed("target") or op.changed("owner") or op.changed("group"):
                     conn.run(["chown", "--no-dereference", f"{attr.owner}:{attr.group}", "--", path])
 
                 # Touch link if requested
-- 
2.43.0


From f3ed5b736432658c002ad447559cafd092dbca80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:54 +0000
Subject: [PATCH 12/53] fix: manage links whose current target is not valid
 utf-8

---
 src/fora/operations/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 4d77040..efa125e 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -293,7 +293,7 @@ def link(path: str,
 
             existing_target = conn.run(["readlink", "-n", path])
             # The link exists but may have a different target or different attributes
-            op.initial_state(exists=True, target=(existing_target.stdout or b"").decode(), owner=stat.owner, group=stat.group, touched=False)
+            op.initial_state(exists=True, target=(existing_target.stdout or b"").decode("utf-8", errors="surrogateescape"), owner=stat.owner, group=stat.group, touched=False)
 
         # Return success if nothing needs to be changed
         if op.unchanged():
-- 
2.43.0


From 120d5afa62314e925d4a24cb8a22d842f37ef876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:05 +0000
Subject: [PATCH 13/53] fix: pass the inventory to templates as 'inventory'

---
 src/fora/operations/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index efa125e..f552f29 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -49,7 +49,7 @@ def _render_template(templ: Template, context: Optional[dict]) -> bytes:
     if context is not None:
         dvars.update(context)
     dvars["host"] = fora.host
-    dvars["inventory"] = fora.host
+    dvars["inventory"] = fora.inventory
     return templ.render(dvars).encode("utf-8")
 
 @operation("dir")
-- 
2.43.0


From 27e45ebaaccc121238c638b16a707e63574644e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:24 +0000
Subject: [PATCH 14/53] fix: remove lines that match when whitespace is ignored
 on both sides

---
 src/fora/operations/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index f552f29..8706a21 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -697,7 +697,7 @@ def line(path: str,
             # Remove matching lines
             if regex is None:
                 if ignore_whitespace:
-                    lines = list(filter(lambda l: line != l.strip(), lines))
+                    lines = list(filter(lambda l: line.strip() != l.strip(), lines))
                 else:
                     lines = list(filter(lambda l: line != l, lines))
             else:
-- 
2.43.0


From 4790f6455351ea59ec0dd8cde6a5ecf3082a9eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:24 +0000
Subject: [PATCH 15/53] fix: name backups of line() after the original file

---
 src/fora/operations/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 8706a21..9dca9c1 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -718,7 +718,7 @@ def line(path: str,
             else:
                 if backup:
                     if isinstance(backup, bool):
-                        backup = f".{datetime.now(timezone.utc).strftime('%Y-%m-%dT%H:%M:%SZ')}.bak"
+                        backup = f"{os.path.basename(path)}.{datetime.now(timezone.utc).strftime('%Y-%m-%dT%H:%M:%SZ')}.bak"
                     conn.run(["cp", "-a", "--", path, os.path.join(os.path.dirname(path), backup)])
                 conn.upload(file=path, content=new_bytes)
 
-- 
2.43.0


From 95467797761a9c598d537e665c8a7b69a1943a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:25 +0000
Subject: [PATCH 16/53] fix: preserve all other lines exactly when adding or
 removing a line

---
 src/fora/operations/files.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 9dca9c1..fb4d558 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -1,5 +1,6 @@
 """Provides operations related to creating and modifying files and directories."""
 
+import io
 import os
 import re
 from datetime import datetime, timezone
@@ -662,7 +663,7 @@ def line(path: str,
         op.final_state(line_present=present)
 
         orig_bytes: Optional[bytes] = None
-        orig_content: Optional[str] = None
+        lines: list[str] = []
         line_present: bool = False
 
         # Examine current state
@@ -674,15 +675,17 @@ def line(path: str,
             # Download the current file
             orig_bytes = conn.download(path)
             orig_content = orig_bytes.decode("utf-8", errors="surrogateescape")
+            # Only split at newlines and keep them, so all other lines are preserved exactly as they are
+            lines = list(io.StringIO(orig_content, newline="\n"))
 
             # Check whether the line is already contained
             if regex is None:
                 if ignore_whitespace:
-                    line_present = line.strip() in [l.strip() for l in (orig_content or "").splitlines()]
+                    line_present = line.strip() in [l.strip() for l in lines]
                 else:
-                    line_present = line in (orig_content or "").splitlines()
+                    line_present = line in [l.rstrip("\r\n") for l in lines]
             else:
-                line_present = bool(re.search(regex, orig_content, re.MULTILINE))
+                line_present = any(re.search(regex, l.rstrip("\r\n")) for l in lines)
 
         op.initial_state(line_present=line_present)
 
@@ -690,22 +693,22 @@ def line(path: str,
         if op.unchanged():
             return op.success()
 
-        lines = (orig_content or "").splitlines()
         if present:
-            lines.append(line)
+            if lines and not lines[-1].endswith("\n"):
+                lines[-1] += "\n"
+            lines.append(line + "\n")
         else:
             # Remove matching lines
             if regex is None:
                 if ignore_whitespace:
                     lines = list(filter(lambda l: line.strip() != l.strip(), lines))
                 else:
-                    lines = list(filter(lambda l: line != l, lines))
+                    lines = list(filter(lambda l: line != l.rstrip("\r\n"), lines))
             else:
                 # mypy false positive here, ignore type warning
-                lines = list(filter(lambda l: not re.search(regex, l), lines)) # type: ignore[type-var]
+                lines = list(filter(lambda l: not re.search(regex, l.rstrip("\r\n")), lines)) # type: ignore[type-var]
 
-        new_content = "\n".join(lines) + "\n"
-        new_bytes = new_content.encode("utf-8", errors="surrogateescape")
+        new_bytes = "".join(lines).encode("utf-8", errors="surrogateescape")
 
         # Add diff if desired
         if fora.args.diff:
-- 
2.43.0


From 0531aa577a32650beb104a5b8e2a702200047ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:27 +0000
Subject: [PATCH 17/53] fix: respect explicitly given zero ids and empty values
 for users and groups

---
 src/fora/operations/system.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fora/operations/system.py b/src/fora/operations/system.py
index 1766e20..41e39dd 100644
--- a/src/fora/operations/system.py
+++ b/src/fora/operations/system.py
@@ -121,15 +121,15 @@ def user(user: str, # pylint: disable=redefined-outer-name,too-many-statements
         op.initial_state(exists=True, uid=current.uid, group=current.group, groups=sorted(current.groups), comment=current.gecos, home=current.home, shell=current.shell, password_hash=current.password_hash)
 
     # Calculate target state. None means no-desired-value (i.e. keep as-is or use default on creation)
-    target_uid = uid or (current.uid if current else None)
+    target_uid = uid if uid is not None else (current.uid if current else None)
     target_group = group or (current.group if current else None)
     if append_groups:
         target_groups = set((groups or []) + (current.groups if current else []))
     else:
         target_groups = groups or (current.groups if current else [])
     target_groups = sorted(list(target_groups))
-    target_password_hash = password_hash or (current.password_hash if current else None)
-    target_comment = comment or (current.gecos if current else None)
+    target_password_hash = password_hash if password_hash is not None else (current.password_hash if current else None)
+    target_comment = comment if comment is not None else (current.gecos if current else None)
     target_home = home or (current.home if current else '/dev/null')
     target_shell = shell or (current.shell if current else '/sbin/nologin')
 
@@ -173,7 +173,7 @@ def user(user: str, # pylint: disable=redefined-outer-name,too-many-statements
                 create_command.extend(["--shell", target_shell])
 
                 # Password hash
-                if target_password_hash:
+                if target_password_hash is not None:
                     create_command.extend(["--password", target_password_hash])
 
                 # User's name
@@ -261,7 +261,7 @@ def group(group: str, # pylint: disable=redefined-outer-name,too-many-statements
         op.initial_state(exists=True, gid=current.gid)
 
     # Calculate target state. None means no-desired-value (i.e. keep as-is or use default on creation)
-    target_gid = gid or (current.gid if current else None)
+    target_gid = gid if gid is not None else (current.gid if current else None)
 
     if present:
         op.final_state(exists=True, gid=target_gid)
-- 
2.43.0


From d5b510330213eea9d074eeff8944506847f458a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:27 +0000
Subject: [PATCH 18/53] fix: allow removing a user from all groups and ignore
 duplicate groups

---
 src/fora/operations/system.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fora/operations/system.py b/src/fora/operations/system.py
index 41e39dd..d8d8415 100644
--- a/src/fora/operations/system.py
+++ b/src/fora/operations/system.py
@@ -126,8 +126,8 @@ def user(user: str, # pylint: disable=redefined-outer-name,too-many-statements
     if append_groups:
         target_groups = set((groups or []) + (current.groups if current else []))
     else:
-        target_groups = groups or (current.groups if current else [])
-    target_groups = sorted(list(target_groups))
+        target_groups = set(groups if groups is not None else (current.groups if current else []))
+    target_groups = sorted(target_groups)
     target_password_hash = password_hash if password_hash is not None else (current.password_hash if current else None)
     target_comment = comment if comment is not None else (current.gecos if current else None)
     target_home = home or (current.home if current else '/dev/null')
@@ -192,7 +192,7 @@ def user(user: str, # pylint: disable=redefined-outer-name,too-many-statements
             if op.changed("group") and target_group is not None:
                 conn.run(["usermod", "--gid", target_group, "--", user])
 
-            if op.changed("groups") and len(target_groups) > 0:
+            if op.changed("groups"):
                 # Empty param for --groups is OK and does the expected thing.
                 conn.run(["usermod", "--groups", ','.join(target_groups), "--", user])
 
-- 
2.43.0


From 8fbef5d421255878028084b6e4006303135a552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:27 +0000
Subject: [PATCH 19/53] fix: resolve the primary group of a user if it is given
 by its gid

---
 src/fora/operations/system.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fora/operations/system.py b/src/fora/operations/system.py
index d8d8415..5a4ae06 100644
--- a/src/fora/operations/system.py
+++ b/src/fora/operations/system.py
@@ -122,7 +122,11 @@ def user(user: str, # pylint: disable=redefined-outer-name,too-many-statements
 
     # Calculate target state. None means no-desired-value (i.e. keep as-is or use default on creation)
     target_uid = uid if uid is not None else (current.uid if current else None)
-    target_group = group or (current.group if current else None)
+    target_group = current.group if current else None
+    if group is not None:
+        # Canonicalize the group's name, as it might have been given as a gid
+        group_entry = conn.query_group(group=group)
+        target_group = group_entry.name if group_entry is not None else group
     if append_groups:
         target_groups = set((groups or []) + (current.groups if current else []))
     else:
-- 
2.43.0


From 375a9d45df192860c2b72b86329657311591deb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:26 +0000
Subject: [PATCH 20/53] fix: ignore duplicates in the list of packages

---
 src/fora/operations/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/utils.py b/src/fora/operations/utils.py
index 2e053d6..386de45 100644
--- a/src/fora/operations/utils.py
+++ b/src/fora/operations/utils.py
@@ -87,7 +87,7 @@ def generic_package(op: Operation,
 
     # Set initial and target state.
     op.initial_state(installed=sorted(list(installed)))
-    op.final_state(installed=sorted(list(packages)) if present else [])
+    op.final_state(installed=sorted(set(packages)) if present else [])
 
     # Return success if nothing needs to be changed
     if op.unchanged():
-- 
2.43.0


From 18978d2f60ae05da24c7b8f007f571827194bd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:26 +0000
Subject: [PATCH 21/53] fix: query installed packages with dpkg-query, which
 fails for unknown packages

---
 src/fora/operations/apt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/apt.py b/src/fora/operations/apt.py
index 3bdb985..e78f5b1 100644
--- a/src/fora/operations/apt.py
+++ b/src/fora/operations/apt.py
@@ -9,7 +9,7 @@ from fora.operations.utils import generic_package, package_manager
 def _is_installed(package: str, opts: Optional[list[str]] = None) -> bool: # pylint: disable=redefined-outer-name
     """Checks whether a package is installed with dpkg-query on the remote host."""
     opts = opts or []
-    ret = fora.host.connection.run(["dpgk-query", "--show", "--showformat=${Status}"] + opts + ["--", package])
+    ret = fora.host.connection.run(["dpkg-query", "--show", "--showformat=${Status}"] + opts + ["--", package], check=False)
     return ret.stdout is not None and b"ok installed" in ret.stdout
 
 def _install(package: str, opts: Optional[list[str]] = None) -> None: # pylint: disable=redefined-outer-name
-- 
2.43.0


From 19abc840b48301854e6dd0e8ccc81dac6a9ea27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:26 +0000
Subject: [PATCH 22/53] fix: don't let apt-get ask for confirmation

---
 src/fora/operations/apt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/operations/apt.py b/src/fora/operations/apt.py
index e78f5b1..9729db5 100644
--- a/src/fora/operations/apt.py
+++ b/src/fora/operations/apt.py
@@ -15,12 +15,12 @@ def _is_installed(package: str, opts: Optional[list[str]] = None) -> bool: # pyl
 def _install(package: str, opts: Optional[list[str]] = None) -> None: # pylint: disable=redefined-outer-name
     """Installs a package with apt-get on the remote host."""
     opts = opts or []
-    fora.host.connection.run(["apt-get", "install"] + opts + ["--", package])
+    fora.host.connection.run(["apt-get", "--yes", "install"] + opts + ["--", package])
 
 def _uninstall(package: str, opts: Optional[list[str]] = None) -> None: # pylint: disable=redefined-outer-name
     """Uninstalls a package with apt-get on the remote host."""
     opts = opts or []
-    fora.host.connection.run(["apt-get", "remove"] + opts + ["--", package])
+    fora.host.connection.run(["apt-get", "--yes", "remove"] + opts + ["--", package])
 
 @package_manager(command="apt-get")
 @operation("package")
-- 
2.43.0


From c31e3de7c1fa9ee629f5d5682936319d49f69208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:26 +0000
Subject: [PATCH 23/53] fix: describe the portage operation by its packages

---
 src/fora/operations/portage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/portage.py b/src/fora/operations/portage.py
index bc771f1..e433d38 100644
--- a/src/fora/operations/portage.py
+++ b/src/fora/operations/portage.py
@@ -56,7 +56,7 @@ def package(packages: list[str],
         The operation wrapper. Must not be supplied by the user.
     """
     _ = (name, check) # Processed automatically.
-    op.desc(str(package))
+    op.desc(str(packages))
 
     return generic_package(op, packages,
             present=present,
-- 
2.43.0


From c6aaf562d3e03ca1ac71dc26ef56b774b95211a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:26 +0000
Subject: [PATCH 24/53] fix: ignore states without a target value in
 unchanged(ignore_none=True)

---
 src/fora/operations/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/api.py b/src/fora/operations/api.py
index ed55cce..ee1c228 100644
--- a/src/fora/operations/api.py
+++ b/src/fora/operations/api.py
@@ -137,7 +137,7 @@ class Operation:
         if not ignore_none:
             return self.initial_state_dict == self.final_state_dict
 
-        keys_not_none = (k for k in self.final_state_dict if k is not None)
+        keys_not_none = (k for k, v in self.final_state_dict.items() if v is not None)
         for k in keys_not_none:
             if self.initial_state_dict[k] != self.final_state_dict[k]:
                 return False
-- 
2.43.0


From 67c8a8889ddc8f32bc979ecf95baeb62f2fe1ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:26 +0000
Subject: [PATCH 25/53] fix: don't report a change for service states that were
 not requested

---
 src/fora/operations/systemd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/operations/systemd.py b/src/fora/operations/systemd.py
index 1afbcf7..fb277ab 100644
--- a/src/fora/operations/systemd.py
+++ b/src/fora/operations/systemd.py
@@ -100,10 +100,10 @@ def service(service: str, # pylint: disable=redefined-outer-name
     cur_enabled = (systemd_unit_file_state or b"").decode('utf-8', errors='ignore').strip() == "enabled"
 
     op.initial_state(state=cur_state, enabled=cur_enabled)
-    op.final_state(state=state, enabled=enabled)
+    op.final_state(state=cur_state if state is None else state, enabled=cur_enabled if enabled is None else enabled)
 
     # Return success if nothing needs to be changed
-    if op.unchanged(ignore_none=True):
+    if op.unchanged():
         return op.success()
 
     # Apply actions to reach desired state, but only if we are not doing a dry run
-- 
2.43.0


From d208d3ef1011b854297248fd759bf5081900a2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:26 +0000
Subject: [PATCH 26/53] fix: examine the state of user services in user mode

---
 src/fora/operations/systemd.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fora/operations/systemd.py b/src/fora/operations/systemd.py
index fb277ab..e37f60c 100644
--- a/src/fora/operations/systemd.py
+++ b/src/fora/operations/systemd.py
@@ -89,14 +89,16 @@ def service(service: str, # pylint: disable=redefined-outer-name
     if state is not None and state not in state_actions:
         raise ValueError(f"Invalid target state '{state}'")
 
+    base_command = ["systemctl", "--user"] if user_mode else ["systemctl"]
+
     # Examine current state
-    systemd_active_state = conn.run(["systemctl", "show", "--value", "--property", "ActiveState", "--", service]).stdout
-    if (systemd_active_state or b"").decode('utf-8', errors='ignore').strip() in ["active", "activating"]:
+    systemd_active_state = conn.run(base_command + ["show", "--value", "--property", "ActiveState", "--", service]).stdout
+    if (systemd_active_state or b"").decode('utf-8', errors='ignore').strip() in ["active", "activating", "reloading"]:
         cur_state = "started"
     else:
         cur_state = "stopped"
 
-    systemd_unit_file_state = conn.run(["systemctl", "show", "--value", "--property", "UnitFileState", "--", service]).stdout
+    systemd_unit_file_state = conn.run(base_command + ["show", "--value", "--property", "UnitFileState", "--", service]).stdout
     cur_enabled = (systemd_unit_file_state or b"").decode('utf-8', errors='ignore').strip() == "enabled"
 
     op.initial_state(state=cur_state, enabled=cur_enabled)
@@ -108,7 +110,6 @@ def service(service: str, # pylint: disable=redefined-outer-name
 
     # Apply actions to reach desired state, but only if we are not doing a dry run
     if not fora.args.dry:
-        base_command = ["systemctl", "--user"] if user_mode else ["systemctl"]
         if op.changed("state") and state is not None:
             conn.run(base_command + [state_actions[state], "--", service])
 
-- 
2.43.0


From c6c4554bb359e8153b5f0800147fe8fe5cfe7333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:14 +0000
Subject: [PATCH 27/53] fix: refuse an empty working directory in remote
 settings

---
 src/fora/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/connection.py b/src/fora/connection.py
index bd0768c..9f26687 100644
--- a/src/fora/connection.py
+++ b/src/fora/connection.py
@@ -94,7 +94,7 @@ class Connection:
         settings.file_mode = check_mask(settings.file_mode, "file_mode")
         settings.dir_mode = check_mask(settings.dir_mode, "dir_mode")
         settings.umask = check_mask(settings.umask, "umask")
-        if settings.cwd:
+        if settings.cwd is not None:
             s = self.stat(settings.cwd)
             if not s:
                 raise ValueError(f"The selected working directory '{settings.cwd}' doesn't exist!")
-- 
2.43.0


From 6c4e5ef907ecc8c2acd640640fe0a4fdf9e2b9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:12 +0000
Subject: [PATCH 28/53] fix: respect name and check of operations when passed
 by position

---
 src/fora/operations/api.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fora/operations/api.py b/src/fora/operations/api.py
index ee1c228..fc974f7 100644
--- a/src/fora/operations/api.py
+++ b/src/fora/operations/api.py
@@ -1,6 +1,7 @@
 """Provides API to define operations."""
 
 from dataclasses import dataclass
+import inspect
 import subprocess
 import sys
 
@@ -254,8 +255,10 @@ def operation(op_name: str): # type: ignore[no-untyped-def]
         def wrapper(*args: Any, **kwargs: Any) -> Any:
             check_host_active()
 
-            op = Operation(op_name=op_name, name=kwargs.get("name", None))
-            check = kwargs.get("check", True)
+            # Also respects a name or check which are passed by position
+            arguments = inspect.signature(function).bind_partial(*args, **kwargs).arguments
+            op = Operation(op_name=op_name, name=arguments.get("name", None))
+            check = arguments.get("check", True)
 
             try:
                 ret = function(*args, **kwargs, op=op)
-- 
2.43.0


From 57a760af4d172c2862d261a2e87f06d1bcba9895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:12 +0000
Subject: [PATCH 29/53] fix: return the failure of a raised OperationError if
 check=False

---
 src/fora/operations/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fora/operations/api.py b/src/fora/operations/api.py
index fc974f7..a0ab6b6 100644
--- a/src/fora/operations/api.py
+++ b/src/fora/operations/api.py
@@ -264,6 +264,9 @@ def operation(op_name: str): # type: ignore[no-untyped-def]
                 ret = function(*args, **kwargs, op=op)
             except OperationError as e:
                 ret = op.failure(str(e))
+                # Continue execution if failures shouldn't be raised.
+                if not check:
+                    return ret
                 # If we are not in debug mode, we modify the traceback such that the exception
                 # seems to originate at the calling site where the operation is called.
                 if fora.args.debug:
-- 
2.43.0


From 60409906c256f50dd4c12ad5d32dcb14548b8d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:12 +0000
Subject: [PATCH 30/53] fix: print errors of processes whose output was not
 captured

---
 src/fora/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/utils.py b/src/fora/utils.py
index 7fb407f..3149746 100644
--- a/src/fora/utils.py
+++ b/src/fora/utils.py
@@ -340,7 +340,7 @@ def print_process_error(err: subprocess.CalledProcessError) -> None:
         col_red, "failed", col_reset, " ",
         f"with code {err.returncode} ]"], file=sys.stderr)
     print_fullwith(["──────── ", col_yellow, "stdout", col_reset, col_darker, " (special characters escaped) ", col_reset], file=sys.stderr)
-    print(err.stdout.decode("utf-8", errors="backslashreplace"), file=sys.stderr)
+    print((err.stdout or b"").decode("utf-8", errors="backslashreplace"), file=sys.stderr)
     print_fullwith(["──────── ", col_yellow, "stderr", col_reset, col_darker, " (special characters escaped) ", col_reset], file=sys.stderr)
-    print(err.stderr.decode("utf-8", errors="backslashreplace"), file=sys.stderr)
+    print((err.stderr or b"").decode("utf-8", errors="backslashreplace"), file=sys.stderr)
     print_fullwith(["──────── ", col_yellow, "end", col_reset, col_darker, " ", col_reset], file=sys.stderr)
-- 
2.43.0


From e7163a01402a6437221f81a9ce1b8d6c0c705c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:04 +0000
Subject: [PATCH 31/53] fix: report the module file as definition file, so that
 recursive scripts are detected

---
 src/fora/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fora/types.py b/src/fora/types.py
index 0c4483b..b0be270 100644
--- a/src/fora/types.py
+++ b/src/fora/types.py
@@ -11,6 +11,7 @@ of the expected contents of the dynamically loaded modules.
 
 from __future__ import annotations
 import inspect
+import os
 
 from dataclasses import dataclass, field
 from types import ModuleType, TracebackType
@@ -169,7 +170,7 @@ class ModuleWrapper:
         """
         if self.module is None or getattr(self.module, "__path__", None) is None:
             return "<internal>"
-        return self.module.__path__
+        return os.path.join(self.module.__path__, os.path.basename(self.module.__file__))
 
 @dataclass
 class GroupWrapper(ModuleWrapper):
-- 
2.43.0


From 8df0b5b1d8f951a997a31bf872614645d75e9eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:19 +0000
Subject: [PATCH 32/53] fix: always load the variables of a host before the
 'all' group

---
 src/fora/inventory_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index c42b722..c6c941d 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -427,7 +427,7 @@ class InventoryWrapper(ModuleWrapper):
 
             # Deduplicate before and after
             decl.before = list(set(decl.before))
-            decl.after = list(set(decl.after) | set(["all"] if decl.name != "all" else []))
+            decl.after = list(set(decl.after) | set(["all"] if decl.name != "all" else ["early-explicits"]))
 
             self._group_decls[decl.name] = decl
 
-- 
2.43.0


From 40d3c706714aaf339451144a6822098c9e98d869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:19 +0000
Subject: [PATCH 33/53] fix: track variables that are initially defined as None

---
 src/fora/inventory_wrapper.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index c6c941d..73bc72c 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -752,8 +752,7 @@ class InventoryWrapper(ModuleWrapper):
             # it was overwritten (or it was newly defined). We want to record this in our
             # definition history. We also compare against a snapshot of the value to detect
             # modification instead of redefinition.
-            previous_value = None if attr not in variable_action_history else variable_action_history[attr][-1].value
-            was_modified = previous_value != value
+            was_modified = attr not in variable_action_history or variable_action_history[attr][-1].value != value
             was_overwritten = hasattr(initializer, attr) and getattr(initializer, attr) is not value
             cur_action: Literal["definition", "modification"] = "modification" if was_modified and not was_overwritten else "definition"
 
-- 
2.43.0


From 4cdebc1861afb1aab14673f790f35cc34c0b3e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:54 +0000
Subject: [PATCH 34/53] fix: detect ambiguous variable definitions by the
 dependencies of groups

---
 src/fora/inventory_wrapper.py | 41 ++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index 73bc72c..91e14a5 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -544,6 +544,34 @@ class InventoryWrapper(ModuleWrapper):
         group_names.sort(key=lambda g: self._group_ranks_min[g])
         self._topological_order = group_names
 
+    def _depends_on(self, group: str, other: str) -> bool:
+        """
+        Checks whether the group must be loaded after the given other group, because it
+        directly or transitively depends on it.
+
+        Parameters
+        ----------
+        group
+            The name of the group to check.
+        other
+            The name of the possible dependency.
+
+        Returns
+        -------
+        bool
+            True if the group depends on the other group.
+        """
+        visited: set[str] = set()
+        pending = [group]
+        while len(pending) > 0:
+            for name in self._group_decls[pending.pop()].after:
+                if name == other:
+                    return True
+                if name not in visited:
+                    visited.add(name)
+                    pending.append(name)
+        return False
+
     def load(self) -> None:
         """
         This function preprocesses the declared hosts and groups, calculates
@@ -761,15 +789,12 @@ class InventoryWrapper(ModuleWrapper):
                 # was allowed to overwrite it. Otherwise, we record that this is a variable
                 # conflict and raise an exception later, once we found all offending variables.
                 if record_conflicts_group is not None and initializer is not None and attr in variable_action_history:
-                    # Determine if the ranks of this group and any previous defining module overlap
-                    # (which means they would share a common possible rank). If that is the case,
-                    # they don't have any dependency on each other and overwriting is forbidden
-                    # as their relative order is arbitrary. We already know that the current group
-                    # is ordered after the previous group, as we are iterating in topological order,
-                    # so a problem would only arise if the previous group's maximum possible rank
-                    # overlaps with our minimum required rank.
+                    # Determine if this group depends on every group that previously changed the variable.
+                    # If it doesn't depend on one of them, overwriting is forbidden as their relative order
+                    # is arbitrary. We already know that the current group is ordered after the previous
+                    # group, as we are iterating in topological order.
                     for prev in variable_action_history[attr]:
-                        if self._group_ranks_max[prev.actor.name] >= self._group_ranks_min[record_conflicts_group.name]:
+                        if not self._depends_on(record_conflicts_group.name, prev.actor.name):
                             if prev.action == "modification" and cur_action == "modification":
                                 # Ambiguous modification order is explicitly allowed.
                                 # While this could in theory also create ambiguities,
-- 
2.43.0


From 75cfa6c0c8a70ff429609f9e4dbcd40f616f4563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:34 +0000
Subject: [PATCH 35/53] fix: close the connection if the remote identity cannot
 be determined

---
 src/fora/connection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fora/connection.py b/src/fora/connection.py
index 9f26687..034e6f6 100644
--- a/src/fora/connection.py
+++ b/src/fora/connection.py
@@ -31,7 +31,12 @@ class Connection:
     def __enter__(self) -> Connection:
         self.connector.open()
         self.host.connection = self
-        self._resolve_identity()
+        try:
+            self._resolve_identity()
+        except BaseException as e:
+            # The context manager protocol doesn't call __exit__ if __enter__ fails.
+            self.__exit__(type(e), e, e.__traceback__)
+            raise
         return self
 
     def __exit__(self, exc_type: Optional[Type[BaseException]], exc: Optional[BaseException], traceback: Optional[TracebackType]) -> None:
-- 
2.43.0


From 49454ee1d4238e8cd00567068546e964a2f4f653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:34 +0000
Subject: [PATCH 36/53] fix: unset the active host if the script fails

---
 src/fora/main.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fora/main.py b/src/fora/main.py
index 2ae7990..bfd2bf7 100644
--- a/src/fora/main.py
+++ b/src/fora/main.py
@@ -56,8 +56,10 @@ def main_run(args: argparse.Namespace) -> None:
         host = fora.inventory.loaded_hosts[k]
         with open_connection(host):
             fora.host = host
-            run_script(args.script, inspect.getouterframes(inspect.currentframe())[0], name="cmdline")
-            fora.host = cast(HostWrapper, None)
+            try:
+                run_script(args.script, inspect.getouterframes(inspect.currentframe())[0], name="cmdline")
+            finally:
+                fora.host = cast(HostWrapper, None)
 
         if host.name != selected_hosts[-1]:
             # Separate hosts by a newline for better visibility
-- 
2.43.0


From 4cacdc4723fd15c61c83f4694f62f718dff50bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:34 +0000
Subject: [PATCH 37/53] fix: close connections whose remote dispatcher is
 already gone

---
 src/fora/connectors/tunnel_connector.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_connector.py b/src/fora/connectors/tunnel_connector.py
index 68407c1..effd689 100644
--- a/src/fora/connectors/tunnel_connector.py
+++ b/src/fora/connectors/tunnel_connector.py
@@ -72,11 +72,21 @@ class TunnelConnector(Connector):
 
     def close(self) -> None:
         if self.is_open:
-            self.conn.write_packet(td.PacketExit())
+            self.is_open = False
+            try:
+                self.conn.write_packet(td.PacketExit())
+            except OSError:
+                # The remote dispatcher is already gone. We still need to
+                # clean up, and must not hide the error that lead to this.
+                pass
 
         if self.process is not None:
             if self.process.stdin is not None:
-                self.process.stdin.close()
+                try:
+                    self.process.stdin.close()
+                except OSError:
+                    # Unsent data couldn't be flushed (see above), the stream is closed regardless.
+                    pass
             self.process.wait()
             if self.process.stdout is not None:
                 self.process.stdout.close()
-- 
2.43.0


From 824433713dd5bd14de265888342cb3575be9dd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:17 +0000
Subject: [PATCH 38/53] fix: extract the full hostname from urls like ssh:host

---
 src/fora/connectors/ssh.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/ssh.py b/src/fora/connectors/ssh.py
index 0b72278..f29ff6c 100644
--- a/src/fora/connectors/ssh.py
+++ b/src/fora/connectors/ssh.py
@@ -56,9 +56,11 @@ class SshConnector(TunnelConnector):
         if not url.startswith(f"{cls.schema}:"):
             raise ValueError(f"Cannot extract hostname from url without matching schema (expected '{cls.schema}', got '{url}').")
 
-        # strip ssh://
+        # strip ssh: or ssh://
         # remaining: [user@]hostname[:port]
-        hostname = url[len(cls.schema) + 3:]
+        hostname = url[len(cls.schema) + 1:]
+        if hostname.startswith("//"):
+            hostname = hostname[2:]
 
         # Remove user
         pos = hostname.find("@")
-- 
2.43.0


From 0fa9e6e7719cb8da43b5a9140b8986b60aee1e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:18 +0000
Subject: [PATCH 39/53] fix: extract IPv6 addresses from ssh urls

---
 src/fora/connectors/ssh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fora/connectors/ssh.py b/src/fora/connectors/ssh.py
index f29ff6c..dc237f9 100644
--- a/src/fora/connectors/ssh.py
+++ b/src/fora/connectors/ssh.py
@@ -67,6 +67,10 @@ class SshConnector(TunnelConnector):
         if pos >= 0:
             hostname = hostname[pos + 1:]
 
+        # Unwrap bracketed (IPv6) address, which may contain colons
+        if hostname.startswith("["):
+            return hostname[1:].split("]", maxsplit=1)[0]
+
         # Remove port
         pos = hostname.find(":")
         if pos >= 0:
-- 
2.43.0


From 5945a68d3ec80e68be58f18bad88caaee886b857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:18 +0000
Subject: [PATCH 40/53] fix: don't require an unversioned python on the remote
 host

---
 src/fora/connectors/ssh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/connectors/ssh.py b/src/fora/connectors/ssh.py
index dc237f9..cb2b9f3 100644
--- a/src/fora/connectors/ssh.py
+++ b/src/fora/connectors/ssh.py
@@ -47,7 +47,7 @@ class SshConnector(TunnelConnector):
         command = ["ssh"]
         command.extend(self.ssh_opts)
         command.append(self.url)
-        command.append(f"env python3 -c \"$(echo '{tunnel_dispatcher_gz_b64}' | base64 -d | python -c 'import zlib,sys;sys.stdout.buffer.write(zlib.decompress(sys.stdin.buffer.read()))')\" {param_debug}")
+        command.append(f"env python3 -c \"$(echo '{tunnel_dispatcher_gz_b64}' | base64 -d | python3 -c 'import zlib,sys;sys.stdout.buffer.write(zlib.decompress(sys.stdin.buffer.read()))')\" {param_debug}")
 
         return command
 
-- 
2.43.0


From 559d49034b2c8dc33c873674655cb8281d4a02fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:19 +0000
Subject: [PATCH 41/53] fix: upload directories given with a trailing slash as
 a child of the destination

---
 src/fora/operations/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index fb4d558..1393091 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -472,7 +472,7 @@ def upload_dir(src: str,
     # If the destination denotes a directory, the actual directory is a
     # child directory thereof with similar name to the source.
     if dest[-1] == "/":
-        dest = os.path.join(dest, os.path.basename(src))
+        dest = os.path.join(dest, os.path.basename(os.path.abspath(src)))
 
     op.desc(dest)
     with logger.indent():
-- 
2.43.0


From eb737a09574138d7f49b4ea0abf31c658e1df069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:19 +0000
Subject: [PATCH 42/53] fix: verify the modes for an uploaded directory before
 modifying anything

---
 src/fora/operations/files.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 1393091..05bffd1 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -489,11 +489,13 @@ def upload_dir(src: str,
             for f in subfiles:
                 files.append((join(sroot, f), join(droot, f)))
 
-        for d in dirs:
-            op.add_nested_result(d, directory(path=d, mode=dir_mode, owner=owner, group=group))
-        for sf,df in files:
-            if os.path.isfile(sf):
-                op.add_nested_result(df, upload(src=sf, dest=df, mode=file_mode, owner=owner, group=group))
+        # Entering the defaults verifies all given values before anything is modified
+        with op.defaults(dir_mode=dir_mode, file_mode=file_mode, owner=owner, group=group):
+            for d in dirs:
+                op.add_nested_result(d, directory(path=d))
+            for sf,df in files:
+                if os.path.isfile(sf):
+                    op.add_nested_result(df, upload(src=sf, dest=df))
 
     return op.success()
 
-- 
2.43.0


From 4adba44e27ef870c9583ee9b437e58c9d76090f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:39 +0000
Subject: [PATCH 43/53] fix: determine the newest commit of exactly the
 requested branch or tag

---
 src/fora/operations/git.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/fora/operations/git.py b/src/fora/operations/git.py
index f0135d0..f9f0f5b 100644
--- a/src/fora/operations/git.py
+++ b/src/fora/operations/git.py
@@ -87,9 +87,18 @@ def repo(url: str,
         op.final_state(initialized=True, commit=cur_commit)
         return op.success()
 
-    # Check the newest available commit
-    remote_newest_commit = conn.run(["git", "ls-remote", "--exit-code", "--", url, branch_or_tag or "HEAD"])
-    newest_commit = (remote_newest_commit.stdout or b"").decode("utf-8", errors="backslashreplace").strip().split()[0]
+    # Check the newest available commit. A plain name would also match any other ref ending in that name
+    # and annotated tags have an id of their own, so query exactly the refs that could be cloned.
+    if branch_or_tag is None:
+        refs = ["HEAD"]
+    else:
+        refs = [f"refs/heads/{branch_or_tag}", f"refs/tags/{branch_or_tag}^{{}}", f"refs/tags/{branch_or_tag}"]
+    remote_refs = conn.run(["git", "ls-remote", "--exit-code", "--", url, *refs])
+    remote_lines = (remote_refs.stdout or b"").decode("utf-8", errors="backslashreplace").splitlines()
+    remote_commits = [line.split("\t", 1) for line in remote_lines]
+    newest_commit = next((commit for ref in refs for commit, remote_ref in remote_commits if remote_ref == ref), None)
+    if newest_commit is None:
+        return op.failure(f"remote repository '{url}' has no branch or tag '{branch_or_tag or 'HEAD'}'")
 
     op.final_state(initialized=True, commit=newest_commit)
 
-- 
2.43.0


From 449ad7bc79890b6c6d569e29019756acf49dc4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:58 +0000
Subject: [PATCH 44/53] fix: refuse to update repositories with a different
 remote url in dry runs, too

---
 src/fora/operations/git.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/fora/operations/git.py b/src/fora/operations/git.py
index f9f0f5b..ecc616e 100644
--- a/src/fora/operations/git.py
+++ b/src/fora/operations/git.py
@@ -106,6 +106,13 @@ def repo(url: str,
     if op.unchanged():
         return op.success()
 
+    if stat_path is not None:
+        # Assert that the existing repository's remote url matches the given url to prevent pulling an unrelated repo
+        ret_current_remote = conn.run(["git", "-C", path, "config", "--get", "remote.origin.url"])
+        current_remote = (ret_current_remote.stdout or b"").decode("utf-8", errors="backslashreplace").strip()
+        if current_remote != url:
+            return op.failure(f"refusing to update existing git repository with different remote url '{current_remote}'")
+
     # Apply actions to reach new state, if we aren't in pretend mode
     if not fora.args.dry:
         if stat_path is None:
@@ -126,13 +133,7 @@ def repo(url: str,
                 if recursive_submodules:
                     submodule_cmd.extend(["--recursive"])
                 conn.run(submodule_cmd)
-        elif update:
-            # Assert that the existing repository's remote url matches the given url to prevent pulling an unrelated repo
-            ret_current_remote = conn.run(["git", "-C", path, "config", "--get", "remote.origin.url"])
-            current_remote = (ret_current_remote.stdout or b"").decode("utf-8", errors="backslashreplace").strip()
-            if current_remote != url:
-                return op.failure(f"refusing to update existing git repository with different remote url '{current_remote}'")
-
+        else:
             # Update the existing repository
             update_cmd = ["git", "-C", path, "pull"]
             if depth is not None:
-- 
2.43.0


From 0fadf7844e7031d2cd0a912d7a54496a95221027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:10 +0000
Subject: [PATCH 45/53] fix: don't report success after pulling a different
 branch than requested

---
 src/fora/operations/git.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/fora/operations/git.py b/src/fora/operations/git.py
index ecc616e..fd96143 100644
--- a/src/fora/operations/git.py
+++ b/src/fora/operations/git.py
@@ -93,9 +93,10 @@ def repo(url: str,
         refs = ["HEAD"]
     else:
         refs = [f"refs/heads/{branch_or_tag}", f"refs/tags/{branch_or_tag}^{{}}", f"refs/tags/{branch_or_tag}"]
-    remote_refs = conn.run(["git", "ls-remote", "--exit-code", "--", url, *refs])
+    remote_refs = conn.run(["git", "ls-remote", "--exit-code", "--symref", "--", url, *refs])
     remote_lines = (remote_refs.stdout or b"").decode("utf-8", errors="backslashreplace").splitlines()
-    remote_commits = [line.split("\t", 1) for line in remote_lines]
+    remote_commits = [line.split("\t", 1) for line in remote_lines if not line.startswith("ref: ")]
+    remote_symrefs = [line[len("ref: "):].split("\t", 1) for line in remote_lines if line.startswith("ref: ")]
     newest_commit = next((commit for ref in refs for commit, remote_ref in remote_commits if remote_ref == ref), None)
     if newest_commit is None:
         return op.failure(f"remote repository '{url}' has no branch or tag '{branch_or_tag or 'HEAD'}'")
@@ -113,6 +114,16 @@ def repo(url: str,
         if current_remote != url:
             return op.failure(f"refusing to update existing git repository with different remote url '{current_remote}'")
 
+        # Assert that the existing repository follows the requested branch, as this is what will be pulled
+        ret_current_branch = conn.run(["git", "-C", path, "symbolic-ref", "--quiet", "HEAD"], check=False)
+        current_branch = (ret_current_branch.stdout or b"").decode("utf-8", errors="backslashreplace").strip()
+        if branch_or_tag is None:
+            requested_branches = [target for target, remote_ref in remote_symrefs if remote_ref == "HEAD"]
+        else:
+            requested_branches = [remote_ref for _, remote_ref in remote_commits if remote_ref == refs[0]]
+        if current_branch not in requested_branches:
+            return op.failure(f"refusing to update existing git repository with a different branch '{current_branch}' checked out")
+
     # Apply actions to reach new state, if we aren't in pretend mode
     if not fora.args.dry:
         if stat_path is None:
-- 
2.43.0


From 8f7a9ed3e9a111540835bc40d6a009c4cfcc2fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:10 +0000
Subject: [PATCH 46/53] fix: refuse non-positive depths for git repositories in
 dry runs, too

---
 src/fora/operations/git.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fora/operations/git.py b/src/fora/operations/git.py
index fd96143..1cb0e05 100644
--- a/src/fora/operations/git.py
+++ b/src/fora/operations/git.py
@@ -58,6 +58,8 @@ def repo(url: str,
     # pylint: disable=too-many-return-statements,too-many-branches,too-many-statements
     _ = (name, check) # Processed automatically.
     check_absolute_path(path, f"{path=}")
+    if depth is not None and depth < 1:
+        raise ValueError(f"{depth=} must be positive")
     op.desc(f"{path} [{url}]")
 
     conn = fora.host.connection
-- 
2.43.0


From e7665d3e12c856fe2ae220822fccd17309d8cd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:58 +0000
Subject: [PATCH 47/53] fix: don't report users with incomplete entries as
 nonexistent

---
 src/fora/connectors/tunnel_dispatcher.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 13e60f0..55809eb 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -673,9 +673,9 @@ class PacketQueryUser(NamedTuple):
         if self.query_password_hash:
             try:
                 pw_hash = getspnam(pw.pw_name).sp_pwdp
-            except KeyError:
-                conn.write_packet(PacketInvalidField("user", "The user has no shadow entry, or it is inaccessible."))
-                return
+            except KeyError as e:
+                # Must not be mistaken for a user that doesn't exist
+                raise OSError(sys_errno.ENOENT, "The user has no shadow entry, or it is inaccessible.") from e
 
         groups = [g.gr_name for g in getgrall() if pw.pw_name in g.gr_mem]
         try:
@@ -689,9 +689,9 @@ class PacketQueryUser(NamedTuple):
                 gecos=pw.pw_gecos,
                 home=pw.pw_dir,
                 shell=pw.pw_shell))
-        except KeyError:
-            conn.write_packet(PacketInvalidField("user", "The user's primary group doesn't exist"))
-            return
+        except KeyError as e:
+            # Must not be mistaken for a user that doesn't exist
+            raise OSError(sys_errno.ENOENT, "The user's primary group doesn't exist") from e
 
 @Packet(type='response')
 class PacketGroupEntry(NamedTuple):
-- 
2.43.0


From 7f47e6fa60e51af23f6041486bc9d3aded8b410e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:26 +0000
Subject: [PATCH 48/53] fix: don't leak supplementary groups to commands run as
 another user

---
 src/fora/connectors/tunnel_dispatcher.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 55809eb..c2c09b5 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -412,6 +412,9 @@ class PacketProcessRun(NamedTuple):
             Sets umask and becomes the correct user.
             """
             os.umask(umask_oct)
+            if uid is not None and gid is not None and uid != os.getuid():
+                # Don't retain the supplementary groups of the current user
+                os.initgroups(getpwuid(uid).pw_name, gid)
             if gid is not None:
                 os.setresgid(gid, gid, gid)
             if uid is not None:
-- 
2.43.0


From 92be3e7c5cf1b03de54194c6964c7733862cd079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:18 +0000
Subject: [PATCH 49/53] fix: don't let commands read from the stream of the
 connection

---
 src/fora/connectors/tunnel_dispatcher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index c2c09b5..d8c84a5 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -426,6 +426,8 @@ class PacketProcessRun(NamedTuple):
         try:
             result = subprocess.run(self.command,
                 input=self.stdin,
+                # The command must not consume data from the stream of the connection
+                stdin=subprocess.DEVNULL if self.stdin is None else None,
                 capture_output=self.capture_output,
                 cwd=self.cwd,
                 preexec_fn=child_preexec,
-- 
2.43.0


From 6d6624c2668435411d78eb1975bf2ac2b78a4a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:22 +0000
Subject: [PATCH 50/53] fix: don't let commands write to the stream of the
 connection

---
 src/fora/connectors/tunnel_dispatcher.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index d8c84a5..46758de 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -428,6 +428,8 @@ class PacketProcessRun(NamedTuple):
                 input=self.stdin,
                 # The command must not consume data from the stream of the connection
                 stdin=subprocess.DEVNULL if self.stdin is None else None,
+                # Output that isn't captured must not be written to the stream of the connection
+                stdout=None if self.capture_output else sys.stderr,
                 capture_output=self.capture_output,
                 cwd=self.cwd,
                 preexec_fn=child_preexec,
-- 
2.43.0


From 67db0742ff5e1a7d79c0789edb5c975d007902fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:39 +0000
Subject: [PATCH 51/53] fix: don't wait forever for a dispatcher whose response
 wasn't read

---
 src/fora/connectors/tunnel_connector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fora/connectors/tunnel_connector.py b/src/fora/connectors/tunnel_connector.py
index effd689..38207d8 100644
--- a/src/fora/connectors/tunnel_connector.py
+++ b/src/fora/connectors/tunnel_connector.py
@@ -87,9 +87,11 @@ class TunnelConnector(Connector):
                 except OSError:
                     # Unsent data couldn't be flushed (see above), the stream is closed regardless.
                     pass
-            self.process.wait()
+            # Must be closed before waiting, otherwise the process might never be able to
+            # write a response that wasn't read completely (e.g. because of an interruption).
             if self.process.stdout is not None:
                 self.process.stdout.close()
+            self.process.wait()
             self.process = None
 
     def _request(self, packet: Any) -> Any:
-- 
2.43.0


From 048a941d623bf2d57bcf12ecd703028c2721d149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:48 +0000
Subject: [PATCH 52/53] fix: don't let operations fail because their output
 cannot be encoded

---
 src/fora/logger.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fora/logger.py b/src/fora/logger.py
index f7357e7..d703c53 100644
--- a/src/fora/logger.py
+++ b/src/fora/logger.py
@@ -98,7 +98,11 @@ def debug_args(msg: str, args: dict[str, Any]) -> None:
 
 def print_indented(msg: str, **kwargs: Any) -> None:
     """Same as print(), but prefixes the message with the indentation prefix."""
-    print(f"{indent_prefix()}{msg}", **kwargs)
+    # Escape any characters that cannot be represented (e.g. lone surrogates in file names),
+    # so that output can never cause an operation to fail.
+    encoding = getattr(sys.stdout, "encoding", None) or "utf-8"
+    text = f"{indent_prefix()}{msg}".encode(encoding, errors="backslashreplace").decode(encoding)
+    print(text, **kwargs)
 
 
 def connection_init(connector: Any) -> None:
-- 
2.43.0


From b340b73930f5100c8994c8b146a84fcefa84374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:20 +0000
Subject: [PATCH 53/53] fix: recognize a line that ends in a carriage return

With ignore_whitespace=False the ending of the given line was compared
with existing lines without their ending, so such a line was never found
and added again on every run.
---
 src/fora/operations/files.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 05bffd1..a1061a9 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -685,7 +685,7 @@ def line(path: str,
                 if ignore_whitespace:
                     line_present = line.strip() in [l.strip() for l in lines]
                 else:
-                    line_present = line in [l.rstrip("\r\n") for l in lines]
+                    line_present = line.rstrip("\r\n") in [l.rstrip("\r\n") for l in lines]
             else:
                 line_present = any(re.search(regex, l.rstrip("\r\n")) for l in lines)
 
@@ -705,7 +705,7 @@ def line(path: str,
                 if ignore_whitespace:
                     lines = list(filter(lambda l: line.strip() != l.strip(), lines))
                 else:
-                    lines = list(filter(lambda l: line != l.rstrip("\r\n"), lines))
+                    lines = list(filter(lambda l: line.rstrip("\r\n") != l.rstrip("\r\n"), lines))
             else:
                 # mypy false positive here, ignore type warning
                 lines = list(filter(lambda l: not re.search(regex, l.rstrip("\r\n")), lines)) # type: ignore[type-var]
-- 
2.43.0

